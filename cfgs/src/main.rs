use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = vec![];
    std::io::stdin().read_to_end(&mut v).unwrap();
    let o = mc_probe::process(&v, |f| catch_unwind(AssertUnwindSafe(f)).ok());
    std::io::stdout().write_all(&o).unwrap();
}

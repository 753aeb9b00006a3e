// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<23>>();
    one::<F1<59>>();
    one::<F1<97>>();
    one::<F1<137>>();
    one::<F1<179>>();
    one::<F1<227>>();
    one::<F1<269>>();
    one::<F1<313>>();
    one::<F1<367>>();
    one::<F1<419>>();
    one::<F1<461>>();
    one::<F1<509>>();
    one::<F1<571>>();
    one::<F1<1039>>();
    one::<F1<1409>>();
    one::<F1<2753>>();
    one::<F1<3697>>();
    one::<F1<5407>>();
    one::<F1<14281>>();
    one::<F1<29173>>();
    one::<F1<78541>>();
    one::<F1<680681>>();
    one::<F1<375735361>>();
    one::<F1<892371481>>();
    one::<F1<5823898081>>();
    one::<F1<30864413581>>();
    one::<F1<50395505161>>();
    one::<F1<103515091681>>();
    one::<F1<522900588211>>();
    one::<F1<907800113221>>();
    one::<F1<1353727535161>>();
    one::<F1<1913593641961>>();
    one::<F1<3967328405041>>();
    one::<F1<12946019005921>>();
    one::<F1<24385389248221>>();
    one::<F1<53074082481421>>();
    one::<F1<196364147567281>>();
    one::<F1<379898695656481>>();
    one::<F1<514310027780641>>();
    one::<F1<841162493281111>>();
    one::<F1<1350478589075617>>();
    one::<F1<2073425007684031>>();
    one::<F1<3966267010053811>>();
    one::<F1<5657410305587041>>();
    one::<F1<18006381187674881>>();
    one::<F1<217173838105722499>>();
    one::<F2<0x22b, 0x4000000>>();
    one::<F2<0x2e4787, 0x4000000>>();
    one::<F2<0x4589e2e0a7eed3, 0x4000000>>();
    one::<F2<0x15865, 0x4000000>>();
    one::<F4<0xfff, 0x0, 0x0, 0x100>>();
    one::<F4<0x15ff3ab, 0x0, 0x0, 0x100>>();
    one::<F4<0x174b0a26731cb429, 0x0, 0x0, 0x100>>();
    one::<F4<0x118b, 0x0, 0x0, 0x100>>();
    one::<F3<0x525, 0x0, 0x40000000000>>();
    one::<F5<0xe439f, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0x3603e4f, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x3c5d, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}

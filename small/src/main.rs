//! small PROPERTY TIER
#[cfg(feature = "circ")]
mod circ;
mod mats;
mod perm;
use mc_small::*;

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    if let Some(t) = std::env::args().nth(2) {
        std::env::set_var("VERIF_TIER", t);
    }
    let run = Run::new(&prop);
    match prop.as_str() {
        "C01" => perm::hashes(&run),
        "C02" | "C03" | "C11" => perm::sets(&run, &prop),
        "C17" => {
            perm::hashes(&run);
            perm::sets(&run, "C03");
        }
        #[cfg(feature = "circ")]
        "C04" | "C05" | "C06" | "C23" => circ::all(&run, &prop),
        "C13" | "C14" | "C16" => mats::all(&run, &prop),
        _ => panic!("nothing here for {prop}"),
    }
    run.pass()
}

//! The parts of the parameter generator that compile, taken from the repository's sources as they are.
#![allow(non_snake_case, dead_code)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
#[path = "../../pgf/src/fields.rs"]
pub mod fields;
mod names {
    #[allow(unused_imports)]
    use super::{utils::*, *};
    /// The generator's binary logarithm, wherever it is kept.
    pub fn binary_logarithm<B: ark_ff::BigInteger>(x: B) -> f64 {
        log2(x)
    }
}
pub use names::binary_logarithm;

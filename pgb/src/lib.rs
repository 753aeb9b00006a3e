//! The emission of parameter code, from the repository's sources as they are. The modules that compute
//! parameters do not compile; `v1::generate` is a stand-in that hands out enumerated parameter sets.
#![allow(non_snake_case, dead_code)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
#[path = "../../pgf/src/fields.rs"]
pub mod fields;
pub mod dump;
pub mod read;
pub mod v1 {
    use ark_ff::PrimeField;
    use poseidon_parameters::v1::*;
    use std::any::Any;
    use std::cell::RefCell;
    /// What the generator answers, and to which arguments.
    pub struct Answers<F: PrimeField> {
        pub sets: Vec<PoseidonParameters<F>>,
        pub allow_inverse: bool,
    }
    thread_local!(pub static ANSWERS: RefCell<Option<Box<dyn Any>>> = RefCell::new(None));
    pub fn generate<F: PrimeField>(M: usize, t: usize, p: F::BigInt, allow_inverse: bool) -> PoseidonParameters<F> {
        ANSWERS.with(|a| {
            let a = a.borrow();
            let a = a.as_ref().unwrap().downcast_ref::<Answers<F>>().unwrap();
            let mut s = a.sets.iter().find(|s| s.t == t).unwrap_or_else(|| panic!("width {} was not asked for", t)).clone();
            // other arguments, another answer
            if M != s.M || p != F::MODULUS || allow_inverse != a.allow_inverse {
                s.arc.0.elements.iter_mut().for_each(|x| *x += F::one());
            }
            s
        })
    }
}
pub mod v2 {
    use ark_ff::PrimeField;
    use poseidon_parameters::v2::*;
    pub fn generate<F: PrimeField>(_: usize, _: usize, _: F::BigInt, _: bool) -> PoseidonParameters<F> {
        unimplemented!()
    }
}

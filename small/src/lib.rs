//! Complete state spaces: the poseidon crates compiled against integers modulo a small prime.
pub mod sets;
pub use decaf377::Fq;
pub use refmodel::field::Dy;
pub use refmodel::linalg::{self, Mat};
pub use refmodel::poseidon::{self, Opt, Params, Sbox};
pub use refmodel::report::*;
pub use refmodel::Field;

pub fn set_order(p: u64) {
    Dy::set_order(p);
    Fq::mc_set_modulus(p);
}
pub fn fq(x: Dy) -> Fq {
    Fq::mc(x.0)
}
pub fn dy(x: Fq) -> Dy {
    Dy(x.v())
}
pub fn flat(m: &Mat<Dy>) -> Vec<Fq> {
    m.iter().flatten().map(|x| fq(*x)).collect()
}
pub fn flatv(m: &[Dy]) -> Vec<Fq> {
    m.iter().map(|x| fq(*x)).collect()
}
/// The i-th state of width t.
pub fn state(mut i: u64, t: usize) -> Vec<Dy> {
    let p = Dy::order();
    (0..t)
        .map(|_| {
            let d = i % p;
            i /= p;
            Dy(d)
        })
        .collect()
}
pub fn code(v: &[Dy]) -> u64 {
    v.iter().rev().fold(0, |s, x| s * Dy::order() + x.0)
}
pub const PRIMES: [u64; 33] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 97, 101, 103, 127, 131, 251, 257, 509, 1021, 4093,
];
/// Primes for which the complete space of width t has at most `cap` states.
pub fn primes(t: usize, cap: u64) -> Vec<u64> {
    PRIMES.iter().copied().filter(|p| (*p as u128).pow(t as u32) <= cap as u128).collect()
}
pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

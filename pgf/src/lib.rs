#![allow(non_snake_case, dead_code)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
pub mod fields;

/// Print what the generator chooses for one field.
pub fn one<F: ark_ff::PrimeField>() {
    use poseidon_parameters::v1::Alpha;
    let p: num_bigint::BigUint = F::MODULUS.into();
    for allow in [true, false] {
        let r = std::panic::catch_unwind(|| alpha::generate::<F>(F::MODULUS, allow));
        let s = match r {
            Ok(Alpha::Exponent(e)) => format!("exponent {}", e),
            Ok(Alpha::Inverse) => "inverse".into(),
            Err(_) => "refused".into(),
        };
        println!("{} {} {}", p, allow, s);
    }
}

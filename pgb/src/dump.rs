//! Every field of a parameter set, one line each.
use ark_ff::PrimeField;
use num_bigint::BigUint;
use poseidon_parameters::v1::*;

fn m<F: PrimeField>(name: &str, m: &Matrix<F>) -> String {
    let e: Vec<String> = m.elements.iter().map(|x| { let b: BigUint = (*x).into(); b.to_string() }).collect();
    format!("{} {}x{} {}", name, m.n_rows, m.n_cols, e.join(","))
}
pub fn dump<F: PrimeField>(s: &PoseidonParameters<F>) -> Vec<String> {
    let o = &s.optimized_mds;
    let mut v = vec![
        format!("M {}", s.M),
        format!("t {}", s.t),
        match s.alpha { Alpha::Exponent(e) => format!("alpha {}", e), Alpha::Inverse => "alpha inverse".to_string() },
        format!("rounds {} full {} partial", s.rounds.full(), s.rounds.partial()),
        m("arc", &s.arc.0),
        m("mds", &(s.mds.0).0),
        m("optimized_arc", &(s.optimized_arc.0).0),
        m("M_hat", &o.M_hat.0),
        m("v", &o.v),
        m("w", &o.w),
        m("M_prime", &o.M_prime.0),
        m("M_doubleprime", &o.M_doubleprime.0),
        m("M_inverse", &o.M_inverse.0),
        m("M_hat_inverse", &o.M_hat_inverse.0),
        { let b: BigUint = o.M_00.into(); format!("M_00 {}", b) },
        m("M_i", &o.M_i),
        format!("{} in v_collection, {} in w_hat_collection", o.v_collection.len(), o.w_hat_collection.len()),
    ];
    v.extend(o.v_collection.iter().enumerate().map(|(i, x)| m(&format!("v_collection[{}]", i), x)));
    v.extend(o.w_hat_collection.iter().enumerate().map(|(i, x)| m(&format!("w_hat_collection[{}]", i), x)));
    v
}

//! C10: security criteria on the constants actually shipped: every square submatrix of every MDS matrix,
//! every power up to 4t for subspace trails, every round-number candidate of the documented range.
use mc_core::*;
use num_bigint::BigUint;
use poseidon_parameters::v1::{Alpha, MatrixOperations};
use refmodel::linalg::{self, Mat};
use refmodel::poseidon::Sbox;
use refmodel::report::*;
use refmodel::rounds::{self, Bounds};
use refmodel::{Fe, Field};

struct Set {
    rate: usize,
    m: usize,
    alpha: Alpha,
    rf: usize,
    rp: usize,
    mds: Mat<Fe>,
    arc: usize,
    opt_arc: usize,
    vs: usize,
    ws: usize,
    arc_vals: Vec<Fe>,
}
macro_rules! set {
    ($rate:expr, $p:expr) => {{
        let p = $p;
        let t = $rate + 1usize;
        Set {
            rate: $rate,
            m: p.M,
            alpha: p.alpha,
            rf: p.rounds.full(),
            rp: p.rounds.partial(),
            mds: p.mds.elements().chunks(t).map(|r| r.iter().map(|e| fe(*e)).collect()).collect(),
            arc: p.arc.elements().len(),
            opt_arc: p.optimized_arc.elements().len(),
            vs: p.optimized_mds.v_collection.len(),
            ws: p.optimized_mds.w_hat_collection.len(),
            arc_vals: p.arc.elements().iter().map(|e| fe(*e)).collect(),
        }
    }};
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1u32 << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

fn main() {
    let run = Run::new("C10");
    check_conversion();
    let sets = [
        set!(1, &poseidon377::RATE_1_PARAMS),
        set!(2, &poseidon377::RATE_2_PARAMS),
        set!(3, &poseidon377::RATE_3_PARAMS),
        set!(4, &poseidon377::RATE_4_PARAMS),
        set!(5, &poseidon377::RATE_5_PARAMS),
        set!(6, &poseidon377::RATE_6_PARAMS),
        set!(7, &poseidon377::RATE_7_PARAMS),
    ];
    let q = rounds::q();
    for s in &sets {
        let t = s.rate + 1;
        run.begin();
        let fail = |what: String, d: String| -> ! { run.violation(&bad(format!("rate {} {what}", s.rate), d)) };
        if s.mds.len() != t || s.mds.iter().any(|r| r.len() != t) {
            fail("mds".into(), format!("is not {t} x {t}"));
        }
        // every square submatrix is non-singular
        let mut n = 0u64;
        for k in 1..=t {
            let subs = subsets(t, k);
            for r in &subs {
                for c in &subs {
                    let m: Mat<Fe> = r.iter().map(|i| c.iter().map(|j| s.mds[*i][*j]).collect()).collect();
                    run.count(1, 1, 1);
                    n += 1;
                    if linalg::det(&m).is_zero() {
                        fail(format!("submatrix rows {r:?} columns {c:?}"), "is singular: the matrix is not MDS".into());
                    }
                }
            }
        }
        run.sample(format!("rate {}: {n} square submatrices, all non-singular", s.rate));
        // no invariant subspace trail: for every period l up to 4t, no non-trivial M^l-invariant subspace
        // avoids the S-box word (full observability rank) and the smallest one containing the S-box word
        // is everything (full controllability rank)
        let mut pw = linalg::identity::<Fe>(t);
        for l in 1..=4 * t {
            pw = linalg::mul(&pw, &s.mds);
            let mut e0 = vec![Fe::zero(); t];
            e0[0] = Fe::one();
            let (mut row, mut col) = (e0.clone(), e0.clone());
            let (mut obs, mut ctl) = (vec![], vec![]);
            let pt = linalg::transpose(&pw);
            for _ in 0..t {
                obs.push(row.clone());
                ctl.push(col.clone());
                row = linalg::mat_vec(&pt, &row);
                col = linalg::mat_vec(&pw, &col);
            }
            run.count(1, 1, 1);
            if linalg::rank(&obs) != t || linalg::rank(&ctl) != t {
                fail(format!("period {l}"), "an infinitely long subspace trail exists".into());
            }
        }
        // S-box is a permutation
        let a = match s.alpha {
            Alpha::Exponent(e) => e as u64,
            Alpha::Inverse => fail("alpha".into(), "is the inverse S-box, the design uses a positive exponent".into()),
        };
        let (mut x, mut y) = (BigUint::from(a), &q - 1u32);
        while y != BigUint::from(0u32) {
            let r = &x % &y;
            x = y;
            y = r;
        }
        if x != BigUint::from(1u32) || a < 2 {
            fail("alpha".into(), format!("x^{a} is not a non-linear permutation: gcd = {x}"));
        }
        // rounds
        let b = Bounds::new(128, t, &q, Sbox::Pow(a));
        let best = b.select(false);
        run.count(96 * 399, 96 * 399, 1);
        if s.m != 128 || Some((s.rf, s.rp)) != best {
            fail("rounds".into(), format!("M={} r_F={} r_P={}, the bounds for 128 bits give {best:?}", s.m, s.rf, s.rp));
        }
        let counts = (s.arc, s.opt_arc, s.vs, s.ws);
        let want = ((s.rf + s.rp) * t, (s.rf + s.rp) * t, s.rp, s.rp);
        if counts != want {
            fail("constants".into(), format!("counts {counts:?}, the round numbers require {want:?}"));
        }
        // round constants are pairwise different and not zero
        let mut seen = std::collections::HashSet::new();
        for (i, c) in s.arc_vals.iter().enumerate() {
            run.count(1, 1, 1);
            if c.is_zero() || !seen.insert(*c) {
                fail(format!("round constant {i}"), "is zero or repeated".into());
            }
        }
        run.end(&format!("rate {}: criteria", s.rate));
    }
    run.assume("the subspace-trail criterion used (full observability and controllability rank of every power up to 4t) is the sufficient condition behind algorithms 1-3 of Grassi, Rechberger, Schofnegger 2020");
    run.pass()
}

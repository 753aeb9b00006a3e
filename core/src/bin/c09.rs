//! C09: every field of every shipped parameter set against the documented derivation. The space is the
//! finite set of all (rate, field, index), enumerated completely.
use mc_core::*;
use poseidon_parameters::v1::{Alpha, MatrixOperations};
use refmodel::linalg::Mat;
use refmodel::report::*;
use refmodel::{Fe, Field};

fn cmp(run: &Run, rate: usize, name: &str, shape: (usize, usize), want_shape: (usize, usize), got: &[decaf377::Fq], want: &[Fe]) -> Result<(), Bad> {
    if shape != want_shape || got.len() != want.len() {
        return Err(bad(
            format!("rate {rate} {name}"),
            format!("has shape {shape:?} and {} elements, expected {want_shape:?} and {}", got.len(), want.len()),
        ));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        run.count(1, 1, 1);
        if fe(*g) != *w {
            return Err(bad(
                format!("rate {rate} {name}[{}][{}]", i / shape.1.max(1), i % shape.1.max(1)),
                format!("is {}, the documented derivation gives {}", fe(*g).hex(), w.hex()),
            ));
        }
    }
    Ok(())
}
fn flat(m: &Mat<Fe>) -> Vec<Fe> {
    m.iter().flatten().copied().collect()
}

macro_rules! one {
    ($run:expr, $m:expr, $rate:expr, $p:expr) => {{
        let (run, p, w) = (&$run, $p, $m.params($rate));
        let (rate, t) = ($rate, $rate + 1usize);
        let o = &p.optimized_mds;
        let scalar = |name: &str, ok: bool, got: String| -> Result<(), Bad> {
            run.count(1, 1, 1);
            if ok { Ok(()) } else { Err(bad(format!("rate {rate} {name}"), format!("is {got}"))) }
        };
        macro_rules! m {
            ($name:expr, $x:expr, $r:expr, $c:expr, $want:expr) => {
                run.check(cmp(run, rate, $name, ($x.n_rows(), $x.n_cols()), ($r, $c), $x.elements(), &$want))
            };
        }
        run.begin();
        run.check(scalar("M", p.M == 128, format!("{}", p.M)));
        run.check(scalar("alpha", p.alpha == Alpha::Exponent(17), format!("{:?}", p.alpha)));
        run.check(scalar("r_F", p.rounds.full() == 8, format!("{}", p.rounds.full())));
        run.check(scalar("r_P", p.rounds.partial() == 31, format!("{}", p.rounds.partial())));
        run.check(scalar("total rounds", p.rounds.total() == 39, format!("{}", p.rounds.total())));
        m!("mds", p.mds, t, t, flat(&w.mds));
        m!("arc", p.arc, 39, t, flat(&w.arc));
        m!("optimized_arc", p.optimized_arc, 39, t, flat(&w.opt.arc));
        m!("M_hat", o.M_hat, t - 1, t - 1, flat(&w.opt.m_hat));
        m!("v", o.v, 1, t - 1, w.opt.v);
        m!("w", o.w, t - 1, 1, w.opt.w);
        m!("M_prime", o.M_prime, t, t, flat(&w.opt.m_prime));
        m!("M_doubleprime", o.M_doubleprime, t, t, flat(&w.opt.m_doubleprime));
        m!("M_inverse", o.M_inverse, t, t, flat(&w.opt.m_inverse));
        m!("M_hat_inverse", o.M_hat_inverse, t - 1, t - 1, flat(&w.opt.m_hat_inverse));
        m!("M_i", o.M_i, t, t, flat(&w.opt.m_i));
        run.check(scalar("M_00", fe(o.M_00) == w.opt.m_00, fe(o.M_00).hex()));
        run.check(scalar("v_collection length", o.v_collection.len() == 31, format!("{}", o.v_collection.len())));
        run.check(scalar("w_hat_collection length", o.w_hat_collection.len() == 31, format!("{}", o.w_hat_collection.len())));
        for k in 0..31 {
            m!(&format!("v_collection[{k}]"), o.v_collection[k], 1, t - 1, w.opt.v_coll[k]);
            m!(&format!("w_hat_collection[{k}]"), o.w_hat_collection[k], t - 1, 1, w.opt.w_hat_coll[k]);
        }
        // wrapper accessors show the same constants
        run.check(cmp(run, rate, "arc inner_elements", (39, t), (39, t), &p.arc.inner_elements(), &flat(&w.arc)));
        for i in 0..t {
            for j in 0..t {
                run.check(scalar("mds element", fe(p.mds.get_element(i, j)) == w.mds[i][j], format!("({i},{j})")));
            }
        }
        // internal consistency, independent of the derivation: M = M' M'', M M^-1 = I, hat hat^-1 = I
        let mm = |x: &[decaf377::Fq], n: usize| -> Mat<Fe> { x.chunks(n).map(|r| r.iter().map(|e| fe(*e)).collect()).collect() };
        let mds = mm(p.mds.elements(), t);
        run.check(scalar("M_prime * M_doubleprime = mds",
            refmodel::linalg::mul(&mm(o.M_prime.elements(), t), &mm(o.M_doubleprime.elements(), t)) == mds, "different".into()));
        run.check(scalar("mds * M_inverse = 1",
            refmodel::linalg::mul(&mds, &mm(o.M_inverse.elements(), t)) == refmodel::linalg::identity::<Fe>(t), "different".into()));
        run.check(scalar("M_hat * M_hat_inverse = 1",
            refmodel::linalg::mul(&mm(o.M_hat.elements(), t - 1), &mm(o.M_hat_inverse.elements(), t - 1)) == refmodel::linalg::identity::<Fe>(t - 1), "different".into()));
        run.sample(format!("rate {rate}: arc[0][0] = {}, mds[0][0] = {}", fe(p.arc.elements()[0]).hex(), fe(p.mds.elements()[0]).hex()));
        run.end(&format!("rate {rate}: every field"));
    }};
}

fn main() {
    let run = Run::new("C09");
    check_conversion();
    let m = Model::new();
    one!(run, m, 1, &poseidon377::RATE_1_PARAMS);
    one!(run, m, 2, &poseidon377::RATE_2_PARAMS);
    one!(run, m, 3, &poseidon377::RATE_3_PARAMS);
    one!(run, m, 4, &poseidon377::RATE_4_PARAMS);
    one!(run, m, 5, &poseidon377::RATE_5_PARAMS);
    one!(run, m, 6, &poseidon377::RATE_6_PARAMS);
    one!(run, m, 7, &poseidon377::RATE_7_PARAMS);
    run.assume("merlin's STROBE transcript (dependency) is correct");
    let _ = Fe::zero();
    run.pass()
}

//! C22: the generator's matrices, and whole parameter sets, against the documented derivation.
use ark_ff::{BigInteger, PrimeField};
use mc_pgm::{fields::*, *};
use num_bigint::BigUint;
use poseidon_parameters::v1::{Alpha, Matrix, MatrixOperations, MdsMatrix, OptimizedMdsMatrices, RoundNumbers, SquareMatrix};
use refmodel::linalg::{self, Mat};
use refmodel::poseidon;
use refmodel::report::*;
use refmodel::Field;

/// The reference model over any of arkworks' fields.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct A<F: PrimeField>(F);
impl<F: PrimeField> Field for A<F> {
    fn zero() -> Self {
        A(F::zero())
    }
    fn one() -> Self {
        A(F::one())
    }
    fn add(self, o: Self) -> Self {
        A(self.0 + o.0)
    }
    fn sub(self, o: Self) -> Self {
        A(self.0 - o.0)
    }
    fn mul(self, o: Self) -> Self {
        A(self.0 * o.0)
    }
    fn from_u64(x: u64) -> Self {
        A(F::from(x))
    }
    fn order_minus_one() -> [u64; 4] {
        unimplemented!()
    }
    fn inv(self) -> Option<Self> {
        self.0.inverse().map(A)
    }
}
fn flat<F: PrimeField>(m: &Mat<A<F>>) -> Vec<F> {
    m.iter().flatten().map(|x| x.0).collect()
}
fn same<F: PrimeField>(case: &str, what: &str, got: &Matrix<F>, shape: (usize, usize), want: &[F]) -> Result<(), Bad> {
    if (got.n_rows, got.n_cols) != shape {
        return Err(bad(case, format!("{} is {} x {} instead of {} x {}", what, got.n_rows, got.n_cols, shape.0, shape.1)));
    }
    if got.elements != want {
        let i = (0..want.len()).find(|i| got.elements.get(*i) != want.get(*i)).unwrap_or(0);
        return Err(bad(case, format!("word {} of {} is {}, documented is {}", i, what, got.elements[i], want[i])));
    }
    Ok(())
}
type Parts<F> = (Matrix<F>, Vec<Matrix<F>>, Vec<Matrix<F>>);
fn collections<F: PrimeField>(case: &str, t: usize, rp: usize, o: &poseidon::Opt<A<F>>, got: &Parts<F>) -> Result<(), Bad> {
    same(case, "M_i", &got.0, (t, t), &flat(&o.m_i))?;
    if got.1.len() != rp || got.2.len() != rp {
        return Err(bad(case, format!("{} row vectors and {} column vectors for {} partial rounds", got.1.len(), got.2.len(), rp)));
    }
    for r in 0..rp {
        let w = |v: &Vec<A<F>>| v.iter().map(|x| x.0).collect::<Vec<F>>();
        same(case, &format!("v_collection[{}]", r), &got.1[r], (1, t - 1), &w(&o.v_coll[r]))?;
        same(case, &format!("w_hat_collection[{}]", r), &got.2[r], (t - 1, 1), &w(&o.w_hat_coll[r]))?;
    }
    Ok(())
}
fn optimized<F: PrimeField>(case: &str, t: usize, rp: usize, o: &poseidon::Opt<A<F>>, g: &OptimizedMdsMatrices<F>) -> Result<(), Bad> {
    let w = |v: &Vec<A<F>>| v.iter().map(|x| x.0).collect::<Vec<F>>();
    same(case, "M_hat", &g.M_hat.0, (t - 1, t - 1), &flat(&o.m_hat))?;
    same(case, "M_hat_inverse", &g.M_hat_inverse.0, (t - 1, t - 1), &flat(&o.m_hat_inverse))?;
    same(case, "M_prime", &g.M_prime.0, (t, t), &flat(&o.m_prime))?;
    same(case, "M_doubleprime", &g.M_doubleprime.0, (t, t), &flat(&o.m_doubleprime))?;
    same(case, "M_inverse", &g.M_inverse.0, (t, t), &flat(&o.m_inverse))?;
    same(case, "v", &g.v, (1, t - 1), &w(&o.v))?;
    same(case, "w", &g.w, (t - 1, 1), &w(&o.w))?;
    if g.M_00 != o.m_00.0 {
        return Err(bad(case, "M_00 differs"));
    }
    collections(case, t, rp, o, &(g.M_i.clone(), g.v_collection.clone(), g.w_hat_collection.clone()))
}
fn cauchy<F: PrimeField>(t: usize) -> Mat<A<F>> {
    (0..t as u64).map(|i| (0..t as u64).map(|j| A(F::from(i + t as u64 + j)).inv().unwrap()).collect()).collect()
}
fn zeros<F: PrimeField>(rows: usize, t: usize) -> Mat<A<F>> {
    vec![vec![A::zero(); t]; rows]
}

/// Matrices over a field of at least 128 bits.
fn matrices<F: PrimeField>(run: &Run, name: &str) -> Result<(), Bad> {
    let th = run.thorough();
    let top = if th { 64 } else { 32 };
    run.par(top - 1, |k| {
        let t = k + 2;
        let case = format!("Cauchy matrix over {}, width {}", name, t);
        for allow in [true, false] {
            for m in [80, 128, 256] {
                sizes::set(t, 8, 31);
                let inp = input::InputParameters::generate(m, t, F::MODULUS, allow);
                let g: MdsMatrix<F> = guard(|| mds::v1_generate(&inp)).map_err(|e| bad(&case, format!("refused: {}", e)))?;
                same(&case, "the matrix", &(g.0).0, (t, t), &flat(&cauchy::<F>(t)))?;
                run.count(1, (t * t) as u64, 1);
            }
        }
        Ok(())
    })?;
    let mut jobs = vec![];
    for t in 2..=(if th { 24 } else { 14 }) {
        for rp in (1..=(if t <= 4 { 40 } else { 6 })).chain([13, 31, 33, 57, 64, 84, 120]) {
            jobs.push((t, rp));
        }
    }
    run.par(jobs.len(), |i| {
        let (t, rp) = jobs[i];
        for rf in [8, 10] {
            let case = format!("optimized matrices over {}, width {}, {} full and {} partial rounds", name, t, rf, rp);
            let m = cauchy::<F>(t);
            let o = poseidon::derive_opt(&m, &zeros(rf + rp, t), rf, rp).unwrap();
            sizes::set(t, rf, rp);
            let mm = MdsMatrix(SquareMatrix(Matrix::new(t, t, flat(&m))));
            let g = guard(|| mds::generate_optimized(&mm, t, &RoundNumbers { r_F: rf, r_P: rp })).map_err(|e| bad(&case, format!("panicked: {}", e)))?;
            optimized(&case, t, rp, &o, &g)?;
            run.count(1, (rp * t) as u64, 1);
        }
        Ok(())
    })
}
/// Fields too small for the method.
fn refused<F: PrimeField>(run: &Run, name: &str) -> Result<(), Bad> {
    for t in 2..=24 {
        let inp = input::InputParameters::generate(128, t, F::MODULUS, true);
        sizes::set(t, 8, 31);
        run.count(1, 1, 1);
        if guard(|| -> MdsMatrix<F> { mds::v1_generate(&inp) }).is_ok() {
            return Err(bad(format!("width {} over {}", t, name), "a field below 128 bits was not refused"));
        }
    }
    Ok(())
}
/// Any matrix over a small field: splitting it for the sparse rounds.
fn small<F: PrimeField>(run: &Run, name: &str, t: usize, vals: &[u64], rps: &[usize]) -> Result<(), Bad> {
    let n = vals.len().pow((t * t) as u32);
    run.par(n, |mut i| {
        let e: Vec<A<F>> = (0..t * t)
            .map(|_| {
                let d = vals[i % vals.len()];
                i /= vals.len();
                A(F::from(d))
            })
            .collect();
        let m: Mat<A<F>> = e.chunks(t).map(|r| r.to_vec()).collect();
        let mm = MdsMatrix(SquareMatrix(Matrix::new(t, t, flat(&m))));
        for rp in rps {
            let o = match poseidon::derive_opt(&m, &zeros(2 + rp, t), 2, *rp) {
                Some(o) => o,
                None => break,
            };
            let case = || format!("{:?} over {}, {} partial rounds", flat(&m).iter().map(|x| x.to_string()).collect::<Vec<_>>(), name, rp);
            sizes::set(t, 2, *rp);
            let rn = RoundNumbers { r_F: 2, r_P: *rp };
            let g: Parts<F> = guard(|| mds::calc_equivalent_matrices(&mm, &rn)).map_err(|e| bad(case(), format!("panicked: {}", e)))?;
            collections(&case(), t, *rp, &o, &g)?;
            // the sanity checks of the whole decomposition expect no other zeros and ones
            let plain = |x: &A<F>| *x != A::zero() && *x != A::one();
            if plain(&o.m_00) && o.v.iter().all(plain) && (1..t).all(|i| plain(&o.m_doubleprime[i][0])) {
                let g = guard(|| mds::generate_optimized(&mm, t, &rn)).map_err(|e| bad(case(), format!("panicked: {}", e)))?;
                optimized(&case(), t, *rp, &o, &g)?;
                run.count(0, 0, 1);
            }
            run.count(1, *rp as u64, 1);
        }
        Ok(())
    })
}
/// The matrices of Poseidon2.
fn poseidon2<F: PrimeField>(run: &Run, name: &str) -> Result<(), Bad> {
    let f = |v: &[u64]| -> Vec<F> { v.iter().map(|x| F::from(*x)).collect() };
    for t in 0..=40usize {
        run.count(2, 2, 2);
        sizes::set(t.max(1), 8, 31);
        let case = format!("internal matrix of width {} over {}", t, name);
        let want = match t {
            2 => Some(f(&[2, 1, 1, 3])),
            3 => Some(f(&[2, 1, 1, 1, 2, 1, 1, 1, 3])),
            _ => None,
        };
        // a singular one is refused
        let want = want.filter(|w| {
            let m: Mat<A<F>> = w.chunks(t).map(|r| r.iter().map(|x| A(*x)).collect()).collect();
            linalg::det(&m) != A::zero()
        });
        match (guard(|| -> SquareMatrix<F> { v2::internal::generate(t) }), want) {
            (Ok(g), Some(w)) => same(&case, "the matrix", &g.0, (t, t), &w)?,
            (Ok(_), None) => return Err(bad(case, "not refused")),
            (Err(e), Some(_)) => return Err(bad(case, format!("refused: {}", e))),
            _ => {}
        }
        let case = format!("external matrix of width {} over {}", t, name);
        let m4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6u64]];
        let want = (t >= 4 && t % 4 == 0).then(|| {
            let mut w = vec![];
            for i in 0..t {
                for j in 0..t {
                    w.push(F::from(if t > 4 && i / 4 == j / 4 { 2u64 } else { 1 }) * F::from(m4[i % 4][j % 4]));
                }
            }
            w
        });
        match (guard(|| -> SquareMatrix<F> { v2::external::generate(t) }), want) {
            (Ok(g), Some(w)) => same(&case, "the matrix", &g.0, (t, t), &w)?,
            (Ok(_), None) => return Err(bad(case, "not refused")),
            (Err(e), Some(_)) => return Err(bad(case, format!("refused: {}", e))),
            _ => {}
        }
    }
    Ok(())
}
fn constants<F: PrimeField>(n: usize, t: usize, m: usize, r: &RoundNumbers, a: &Alpha) -> Vec<F> {
    let pb = F::MODULUS.to_bytes_le();
    let ab = match a {
        Alpha::Exponent(e) => e.to_le_bytes(),
        Alpha::Inverse => [0xff; 4],
    };
    poseidon::transcript_constants(n, t, m, &pb, F::MODULUS.num_bits() as usize, r.full(), r.partial(), ab)
        .iter()
        .map(|b| F::from_le_bytes_mod_order(b))
        .collect()
}
fn at<F: PrimeField>(x: &BigUint) -> F {
    F::from(x.clone())
}
/// Whole parameter sets.
fn sets<F: PrimeField>(run: &Run, name: &str, big: bool) -> Result<(), Bad> {
    let mut jobs = vec![];
    for t in 2..=(if run.thorough() { 16 } else { 9 }) {
        for m in [64, 80, 128, 192, 256] {
            for allow in [true, false] {
                jobs.push((t, m, allow));
            }
        }
    }
    run.par(jobs.len(), |i| {
        let (t, m, allow) = jobs[i];
        let p = F::MODULUS;
        let inp = input::InputParameters::generate(m, t, p, allow);
        let Ok(al) = guard(|| alpha::generate::<F>(p, allow)) else {
            if guard(|| v1::generate::<F>(m, t, p, allow)).is_ok() {
                return Err(bad(format!("{} width {} level {}", name, t, m), "a set without an S-box"));
            }
            return Ok(());
        };
        let case = format!("Poseidon set over {}, width {}, level {}, inverse {}", name, t, m, if allow { "allowed" } else { "not allowed" });
        let rn = guard(|| rounds::v1_generate(&inp, &al)).ok();
        if let Some(r) = &rn {
            sizes::set(t, r.full(), r.partial());
        }
        match (guard(|| v1::generate::<F>(m, t, p, allow)), rn.filter(|_| big)) {
            (Ok(_), None) => return Err(bad(case, "not refused")),
            (Err(e), Some(_)) => return Err(bad(case, format!("refused: {}", e))),
            (Err(_), None) => {}
            (Ok(g), Some(r)) => {
                let (rf, rp) = (r.full(), r.partial());
                if g.M != m || g.alpha != al || g.rounds != r {
                    return Err(bad(case, format!("level {}, S-box {:?}, rounds {:?} instead of {}, {:?}, {:?}", g.M, g.alpha, g.rounds, m, al, r)));
                }
                let c = constants::<F>((rf + rp) * t, t, m, &r, &al);
                let arc: Mat<A<F>> = c.chunks(t).map(|x| x.iter().map(|y| A(*y)).collect()).collect();
                let md = cauchy::<F>(t);
                let o = poseidon::derive_opt(&md, &arc, rf, rp).unwrap();
                same(&case, "the round constants", &g.arc.0, (rf + rp, t), &c)?;
                same(&case, "the matrix", &(g.mds.0).0, (t, t), &flat(&md))?;
                same(&case, "the optimized constants", &(g.optimized_arc.0).0, (rf + rp, t), &flat(&o.arc))?;
                optimized(&case, t, rp, &o, &g.optimized_mds)?;
                run.count(1, (rf + rp) as u64, 1);
            }
        }
        let case = case.replace("Poseidon set", "Poseidon2 set");
        let rn = guard(|| rounds::v2_generate(&inp, &al)).ok();
        if let Some(r) = &rn {
            sizes::set(t, r.full(), r.partial());
        }
        match (guard(|| v2::generate::<F>(m, t, p, allow)), rn.filter(|_| t < 4)) {
            (Ok(_), None) => return Err(bad(case, "not refused")),
            (Err(e), Some(_)) => {
                let w: SquareMatrix<F> = match guard(|| v2::internal::generate(t)) {
                    Ok(w) => w,
                    Err(_) => return Ok(()),
                };
                return Err(bad(case, format!("refused: {} ({} words)", e, w.0.elements.len())));
            }
            (Err(_), None) => {}
            (Ok(g), Some(r)) => {
                if g.M != m || g.alpha != al || g.rounds != r {
                    return Err(bad(case, format!("level {}, S-box {:?}, rounds {:?} instead of {}, {:?}, {:?}", g.M, g.alpha, g.rounds, m, al, r)));
                }
                let n = r.full() * t + r.partial();
                same(&case, "the round constants", &g.arc.0, (n, 1), &constants::<F>(n, t, m, &r, &al))?;
                let w: Vec<F> = (if t == 2 { vec![2u64, 1, 1, 3] } else { vec![2, 1, 1, 1, 2, 1, 1, 1, 3] }).iter().map(|x| F::from(*x)).collect();
                same(&case, "the internal matrix", &g.m_i.0, (t, t), &w)?;
                same(&case, "the external matrix", &g.m_e.0, (t, t), &w)?;
                run.count(1, n as u64, 1);
            }
        }
        Ok(())
    })
}
fn sets_large<F: PrimeField>(run: &Run, name: &str) -> Result<(), Bad> {
    sets::<F>(run, name, true)
}
fn sets_tiny<F: PrimeField>(run: &Run, name: &str) -> Result<(), Bad> {
    sets::<F>(run, name, false)
}
/// The sets that ship, from the generator.
fn shipped(run: &Run) -> Result<(), Bad> {
    for t in 2..=8 {
        let w = poseidon::shipped(t);
        let case = format!("the shipped set of width {}", t);
        sizes::set(t, 8, 31);
        let g = guard(|| v1::generate::<Q>(128, t, Q::MODULUS, true)).map_err(|e| bad(&case, e))?;
        let f = |m: &Mat<refmodel::Fe>| -> Vec<Q> { m.iter().flatten().map(|x| at::<Q>(&BigUint::from_bytes_le(&x.to_bytes()))).collect() };
        if (g.rounds.full(), g.rounds.partial(), &g.alpha) != (w.r_f, w.r_p, &Alpha::Exponent(17)) {
            return Err(bad(case, format!("{:?} {:?}", g.rounds, g.alpha)));
        }
        same(&case, "the round constants", &g.arc.0, (39, t), &f(&w.arc))?;
        same(&case, "the matrix", &(g.mds.0).0, (t, t), &f(&w.mds))?;
        same(&case, "the optimized constants", &(g.optimized_arc.0).0, (39, t), &f(&w.opt.arc))?;
        same(&case, "M_i", &g.optimized_mds.M_i, (t, t), &f(&w.opt.m_i))?;
        let flat = |v: &Vec<Matrix<Q>>| -> Vec<Q> { v.iter().flat_map(|m| m.elements.clone()).collect() };
        if flat(&g.optimized_mds.v_collection) != f(&w.opt.v_coll) || flat(&g.optimized_mds.w_hat_collection) != f(&w.opt.w_hat_coll) {
            return Err(bad(case, "the vectors of the sparse matrices differ"));
        }
        run.count(1, 39, 1);
    }
    Ok(())
}
type Q = F4<0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556>;
macro_rules! each {
    ($run:ident, $go:ident: $($name:literal $t:ty),*) => {
        $( $run.check($go::<$t>(&$run, $name)); )*
    };
}
macro_rules! large {
    ($run:ident, $go:ident) => {
        each!($run, $go:
            "decaf377's base field" Q,
            "2^128 - 159" F3<0xffffffffffffff61, 0xffffffffffffffff, 0>,
            "2^129 - 25" F3<0xffffffffffffffe7, 0xffffffffffffffff, 1>,
            "2^191 - 19" F3<0xffffffffffffffed, 0xffffffffffffffff, 0x7fffffffffffffff>,
            "the BN254 scalar field" F4<0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029>,
            "the BLS12-381 scalar field" F4<0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48>,
            "2^255 - 19" F4<0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff>,
            "the BLS12-377 base field" F6<0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x1ae3a4617c510ea>
        )
    };
}
macro_rules! tiny {
    ($run:ident, $go:ident) => {
        each!($run, $go:
            "F_3" F1<3>, "F_5" F1<5>, "F_7" F1<7>, "F_11" F1<11>, "F_13" F1<13>, "F_101" F1<101>, "2^31 - 1" F1<0x7fffffff>, "2^61 - 1" F1<0x1fffffffffffffff>,
            "2^127 - 1" F2<0xffffffffffffffff, 0x7fffffffffffffff>, "2^126 - 137" F2<0xffffffffffffff77, 0x3fffffffffffffff>
        )
    };
}
fn main() {
    let run = Run::new("C22");
    run.begin();
    large!(run, matrices);
    run.end("Cauchy matrices and their decomposition");
    tiny!(run, refused);
    run.end("fields below 128 bits are refused");
    let th = run.thorough();
    run.check(small::<F1<3>>(&run, "F_3", 2, &[0, 1, 2], &[1, 2, 3, 4, 5]));
    run.check(small::<F1<5>>(&run, "F_5", 2, &[0, 1, 2, 3, 4], &[1, 2, 3, 4, 5]));
    run.check(small::<F1<7>>(&run, "F_7", 2, &[0, 1, 2, 3, 4, 5, 6], &[1, 2, 3, 4]));
    run.check(small::<F1<11>>(&run, "F_11", 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[1, 2, 3]));
    run.check(small::<F1<3>>(&run, "F_3", 3, &[0, 1, 2], &[1, 2, 3]));
    run.check(small::<F1<7>>(&run, "F_7", 3, if th { &[2, 3, 4, 5, 6] } else { &[2, 3, 6] }, &[1, 2, 3]));
    run.check(small::<F1<101>>(&run, "F_101", 3, if th { &[0, 1, 5, 77] } else { &[0, 1, 77] }, &[1, 2]));
    if th {
        run.check(small::<F1<5>>(&run, "F_5", 3, &[0, 1, 2, 3], &[1, 2]));
        run.check(small::<F1<5>>(&run, "F_5", 3, &[0, 1, 2, 3, 4], &[2]));
    }
    run.check(small::<F1<13>>(&run, "F_13", 4, &[1, 12], &[1, 2]));
    run.check(small::<Q>(&run, "decaf377's base field", 3, &[2, 3, 1], &[1, 3]));
    run.end("all matrices over small fields");
    large!(run, poseidon2);
    tiny!(run, poseidon2);
    run.end("matrices of Poseidon2");
    large!(run, sets_large);
    tiny!(run, sets_tiny);
    run.end("whole parameter sets");
    run.check(shipped(&run));
    run.end("the shipped sets from the generator");
    run.sample("optimized matrices over 2^129 - 25, width 7, 8 full and 57 partial rounds");
    run.assume("the sizes are erased from the types of the generator's sources (pgm/erase.rs) and the matrix interface is a stand-in (pg/shim): as they are, the sources do not compile");
    run.assume("S-box and round numbers inside whole sets are those of the generator's own modules, which C18 and C19 decide");
    run.pass()
}

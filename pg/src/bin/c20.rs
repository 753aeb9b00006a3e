//! C20: generated round constants against the documented transcript, and generated optimized constants
//! against the textbook permutation.
use ark_ff::{BigInteger, Fp64, MontBackend, PrimeField};
use fields::*;
use mc_pg::*;
use num_bigint::BigUint;
use poseidon_parameters::v1::{Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, RoundNumbers, SquareMatrix};
use refmodel::field::Sp;
use refmodel::linalg::{self, Mat};
use refmodel::poseidon::{self, Params, Sbox};
use refmodel::report::*;
use refmodel::{Fe, Field};
use std::collections::HashMap;
use std::sync::Mutex;

type Q = F4<0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556>;

fn dec<F: PrimeField>(f: F) -> BigUint {
    f.into()
}

struct Seen {
    /// first two constants of every transcript of one field, and the choices they belong to
    first: Mutex<HashMap<Vec<BigUint>, (String, (usize, usize, usize, usize, Option<u32>))>>,
}

fn transcript<F: PrimeField>(run: &Run, name: &str, choices: &[(usize, usize, usize, usize, Option<u32>)], seen: &Seen) -> Result<(), Bad> {
    let p: BigUint = F::MODULUS.into();
    let pb = F::MODULUS.to_bytes_le();
    run.par(choices.len(), |i| {
        let (m, t, rf, rp, al) = choices[i];
        let rn = RoundNumbers { r_F: rf, r_P: rp };
        let a = al.map(Alpha::Exponent).unwrap_or(Alpha::Inverse);
        let ab = al.map(|e| e.to_le_bytes()).unwrap_or([0xff; 4]);
        let inp = input::InputParameters::generate(m, t, F::MODULUS, true);
        for v2 in [false, true] {
            let n = if v2 { rf * t + rp } else { (rf + rp) * t };
            let want: Vec<BigUint> = poseidon::transcript_constants(n, t, m, &pb, p.bits() as usize, rf, rp, ab)
                .iter()
                .map(|b| BigUint::from_bytes_le(b) % &p)
                .collect();
            let case = format!("{name}: Poseidon{} M={m} t={t} r_F={rf} r_P={rp} alpha={a:?}", if v2 { "2" } else { "" });
            let got = guard(|| if v2 { round_constants::v2_generate::<F>(&inp, rn, a) } else { round_constants::v1_generate::<F>(&inp, rn, a) })
                .map_err(|e| bad(case.clone(), format!("panicked: {e}")))?;
            run.count(n as u64 + 7, n as u64 + 7, 1);
            let shape = if v2 { (n, 1) } else { (rf + rp, t) };
            if (got.n_rows(), got.n_cols()) != shape || got.elements().len() != n {
                return Err(bad(case, format!("{} x {} constants, expected {shape:?}", got.n_rows(), got.n_cols())));
            }
            // how numbers of rounds above 255 enter the transcript is not written down anywhere
            if rf < 256 && rp < 256 {
                for (k, (g, w)) in got.elements().iter().zip(&want).enumerate() {
                    if dec(*g) != *w {
                        return Err(bad(format!("{case}, constant {k}"), format!("is {}, the documented transcript gives {w}", dec(*g))));
                    }
                }
            }
            if p.bits() > 100 && n >= 2 && !v2 {
                let key = got.elements().iter().take(2).map(|x| dec(*x)).collect();
                let c = choices[i];
                if let Some((o, d)) = seen.first.lock().unwrap().insert(key, (name.to_string(), c)) {
                    if o != name || c != d {
                        return Err(bad(case, format!("starts with the same constants as {o} M={} t={} r_F={} r_P={} alpha={:?}", d.0, d.1, d.2, d.3, d.4)));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Both kinds of field, with conversions.
trait Pair: Field {
    type F: PrimeField;
    fn to(self) -> Self::F;
    fn back(x: Self::F) -> Self;
}
macro_rules! small {
    ($p:literal) => {
        impl Pair for Sp<$p> {
            type F = F1<$p>;
            fn to(self) -> F1<$p> {
                F1::<$p>::from(self.0)
            }
            fn back(x: F1<$p>) -> Self {
                Sp(x.into_bigint().0[0])
            }
        }
    };
}
small!(3);
small!(5);
small!(7);
small!(11);
small!(13);
impl Pair for Fe {
    type F = Q;
    fn to(self) -> Q {
        Q::from_le_bytes_mod_order(&self.to_bytes())
    }
    fn back(x: Q) -> Fe {
        Fe::from_canonical(x.into_bigint().0)
    }
}
#[allow(dead_code)]
type Unused = Fp64<MontBackend<C1<3>, 1>>;

/// The optimized machine with the generated constants equals the textbook machine on all given states.
fn optimized<P: Pair>(run: &Run, name: &str, t: usize, rf: usize, rp: usize, mds: &Mat<P>, arc: &Mat<P>, states: &[Vec<P>]) -> Result<(), Bad> {
    let Some(opt) = poseidon::derive_opt(mds, arc, rf, rp) else { return Ok(()) };
    let case = || format!("{name}: t={t} r_F={rf} r_P={rp} mds={mds:?} constants={arc:?}");
    let flat = |m: &Mat<P>| -> Vec<P::F> { m.iter().flatten().map(|x| x.to()).collect() };
    let a = ArcMatrix(Matrix::new(rf + rp, t, flat(arc)));
    let m = MdsMatrix(SquareMatrix(Matrix::new(t, t, flat(mds))));
    let g = guard(|| round_constants::generate_optimized(&a, &m, &RoundNumbers { r_F: rf, r_P: rp })).map_err(|e| bad(case(), format!("panicked: {e}")))?;
    if (g.n_rows(), g.n_cols()) != (rf + rp, t) {
        return Err(bad(case(), format!("{} x {} optimized constants", g.n_rows(), g.n_cols())));
    }
    let mut p = Params { t, m: 0, r_f: rf, r_p: rp, sbox: Sbox::Pow(3), mds: mds.clone(), arc: arc.clone(), opt };
    p.opt.arc = g.elements().chunks(t).map(|r| r.iter().map(|x| P::back(*x)).collect()).collect();
    let (ts, os) = (poseidon::textbook_steps(rf, rp), poseidon::optimized_steps(rf, rp));
    for s in states {
        let (x, y) = (poseidon::run(&p, &ts, s), poseidon::run(&p, &os, s));
        run.count(2, (ts.len() + os.len()) as u64, 0);
        if x != y {
            return Err(bad(case(), format!("on state {s:?} the optimized permutation with the generated constants gives {y:?}, the textbook one {x:?}")));
        }
    }
    run.count(0, 0, 1);
    Ok(())
}

fn all<const P: u64>(n: usize) -> Vec<Vec<Sp<P>>> {
    (0..(P as usize).pow(n as u32))
        .map(|mut i| {
            (0..n)
                .map(|_| {
                    let d = i as u64 % P;
                    i /= P as usize;
                    Sp(d)
                })
                .collect()
        })
        .collect()
}
fn arcs<P: Pair>(rows: usize, t: usize, vals: &[u64]) -> Vec<Mat<P>> {
    let z = vec![vec![P::zero(); t]; rows];
    let mut v = vec![z.clone()];
    for r in 0..rows {
        for c in 0..t {
            for x in vals {
                let mut a = z.clone();
                a[r][c] = P::from_u64(*x);
                v.push(a);
            }
        }
    }
    for k in 1..4u64 {
        v.push((0..rows).map(|r| (0..t).map(|c| P::from_u64((r * t + c) as u64 * k + 1).mul(P::from_u64(k + 1))).collect()).collect());
    }
    v
}
/// Every matrix over the field, every constant at every place, every state.
fn exhaustive<const P: u64>(run: &Run, t: usize, rounds: &[(usize, usize)]) -> Result<(), Bad>
where
    Sp<P>: Pair,
{
    run.begin();
    let states = all::<P>(t);
    let mats: Vec<Mat<Sp<P>>> = all::<P>(t * t).into_iter().map(|f| f.chunks(t).map(|r| r.to_vec()).collect()).collect();
    for (rf, rp) in rounds {
        let a = arcs::<Sp<P>>(rf + rp, t, &[1, 2]);
        run.par(mats.len(), |i| {
            for c in &a {
                optimized(run, &format!("F_{P}"), t, *rf, *rp, &mats[i], c, &states)?;
            }
            Ok(())
        })?;
    }
    run.end(&format!("optimized constants: all matrices and states over F_{P}, width {t}"));
    Ok(())
}
fn large(run: &Run, th: bool) -> Result<(), Bad> {
    run.begin();
    let mut jobs = vec![];
    for t in 2..=if th { 12 } else { 9usize } {
        for (rf, rp) in [(2, 1), (2, 2), (4, 3), (6, 5), (8, 31), (10, 60), (2, 7), (0, 3), (8, 1)] {
            for k in 0..4u64 {
                jobs.push((t, rf, rp, k));
            }
        }
    }
    run.par(jobs.len(), |i| {
        let (t, rf, rp, k) = jobs[i];
        let mds: Mat<Fe> = match k {
            0 => poseidon::cauchy(t),
            1 => linalg::transpose(&(0..t as u64).map(|i| (0..t as u64).map(|j| Fe::from_u64(3 * i + 50 + 7 * j).inv().unwrap()).collect()).collect()),
            2 => (0..t as u64).map(|i| (0..t as u64).map(|j| Fe::from_u64(i * 31 + j + 2).pow(5 + i)).collect()).collect(),
            _ => (0..t).map(|i| (0..t).map(|j| Fe::from_u64([2, 3, 1, 1, 5, 1, 7, 1, 11, 13, 17, 19][(j + t - i) % t])).collect()).collect(),
        };
        let mut st = refmodel::space::backgrounds(t);
        st.push(vec![Fe::zero(); t]);
        let rows = rf + rp;
        let mut a = vec![vec![vec![Fe::zero(); t]; rows]];
        for s in 0..3u64 {
            a.push((0..rows as u64).map(|r| (0..t as u64).map(|c| Fe::from_u64(s * 977 + r * 31 + c + 2).pow(97)).collect()).collect());
        }
        if rows * t <= 60 {
            for r in 0..rows {
                for c in 0..t {
                    let mut z = a[0].clone();
                    z[r][c] = Fe::one();
                    a.push(z);
                }
            }
        }
        for c in &a {
            optimized(run, "decaf377 base field", t, rf, rp, &mds, c, &st)?;
        }
        Ok(())
    })?;
    run.end("optimized constants: large field, widths 2 and up");
    Ok(())
}

fn main() {
    let run = Run::new("C20");
    let th = run.thorough();
    let seen = Seen { first: Mutex::default() };
    // choices: a full product of short lists, and each coordinate swept alone
    let alphas = [Some(3), Some(5), Some(7), Some(17), Some(31), Some(256), Some(65537), Some(1 << 24), Some(u32::MAX - 1), None];
    let mut ch = vec![];
    for m in [1, 80, 128, 256, 257] {
        for t in [1, 2, 3, 5, 8] {
            for rf in [0, 1, 2, 8, 9] {
                for rp in [0, 1, 31, 60] {
                    for a in if th { &alphas[..] } else { &alphas[..4] } {
                        ch.push((m, t, rf, rp, *a));
                    }
                    ch.push((m, t, rf, rp, None));
                }
            }
        }
    }
    let mut sweep = vec![];
    for x in 0..if th { 1100 } else { 300 } {
        sweep.push((x, 3, 8, 31, Some(17)));
        sweep.push((128, 3, 8, 31, Some(x as u32)));
        if x < 120 {
            sweep.push((128, x, 2, 1, Some(17)));
        }
        sweep.push((128, 3, x, 5, Some(17)));
        sweep.push((128, 3, 8, x, Some(17)));
    }
    for k in 0..63 {
        for d in [0usize, 1] {
            sweep.push(((1usize << k) + d, 2, 2, 1, Some(5)));
            if k < 32 {
                sweep.push((128, 2, 2, 1, Some((1u32 << k) + d as u32)));
            }
        }
    }
    for a in alphas {
        sweep.push((128, 3, 8, 31, a));
    }
    macro_rules! field {
        ($name:expr, $f:ty) => {
            for (n, c) in [("product", &ch), ("sweeps", &sweep)] {
                run.begin();
                let mut c = c.clone();
                c.sort();
                c.dedup();
                let r = transcript::<$f>(&run, $name, &c, &seen);
                run.end(&format!("transcript over {}: {n}", $name));
                run.check(r);
            }
        };
    }
    field!("decaf377 base field", Q);
    // no modulus without a spare top bit: ark-ff 0.4 adds wrongly in such fields (a dependency)
    field!("F_(2^31-1)", F1<2147483647>);
    field!("Curve25519", F4<0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff>);
    field!("BLS12-381 base field", F6<0xb9feffffffffaaab, 0x1eabfffeb153ffff, 0x6730d2a0f6b0f624, 0x64774b84f38512bf, 0x4b1ba7b6434bacd7, 0x1a0111ea397fe69a>);
    field!("F_(2^127-1)", F2<0xffffffffffffffff, 0x7fffffffffffffff>);
    field!("F_(2^190-11)", F3<0xfffffffffffffff5, 0xffffffffffffffff, 0x3fffffffffffffff>);
    field!("F_101", F1<101>);
    if th {
        field!("M61", F1<2305843009213693951>);
        field!("F_3", F1<3>);
        field!("BabyBear", F1<2013265921>);
        field!("BN254 scalar field", F4<0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029>);
    }
    run.extra("pairwise_different_transcripts", seen.first.lock().unwrap().len().to_string());
    let small: &[(usize, usize)] = &[(2, 1), (2, 2), (2, 3), (4, 3), (0, 2), (4, 1), (2, 6)];
    run.check(exhaustive::<3>(&run, 2, small));
    run.check(exhaustive::<5>(&run, 2, small));
    run.check(exhaustive::<7>(&run, 2, small));
    run.check(exhaustive::<3>(&run, 3, if th { small } else { &[(2, 2), (2, 3)] }));
    if th {
        run.check(exhaustive::<11>(&run, 2, small));
        run.check(exhaustive::<13>(&run, 2, &small[..4]));
    }
    run.check(large(&run, th));
    run.assume("round_constants.rs is compiled against a stand-in for the matrix interface it was written for (pg/shim); its matrix product and inverse are the stand-in's");
    run.assume("merlin's STROBE transcript (dependency) is correct");
    run.pass()
}

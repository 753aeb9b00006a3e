//! C24: comparison and copying of matrices and parameter sets see every word, and nothing else.
use decaf377::Fq;
use mc_core::*;
use mc_mat::*;
use poseidon_parameters::{v1, v2};
use poseidon_parameters::v1::*;
use refmodel::report::*;
use refmodel::space::p2;
use refmodel::{Fe, Field};

/// Calls the function with a name and every word, and stores what it returns.
trait Words: Clone {
    fn visit(&mut self, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq);
    fn scalars(&self) -> Vec<String> {
        vec![]
    }
    fn same(_: &Self, _: &Self) -> Option<(bool, bool)> {
        None
    }
}
fn matrix<M: MatrixOperations>(m: &mut M, name: &dyn Fn() -> String, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq) {
    for i in 0..m.n_rows() {
        for j in 0..m.n_cols() {
            let old = m.get_element(i, j);
            let new = f(&|| format!("{}[{i}][{j}]", name()), old);
            if new != old {
                m.set_element(i, j, new);
            }
        }
    }
}
macro_rules! words {
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> Words for $t {
            fn visit(&mut self, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq) {
                matrix(self, &String::new, f)
            }
            fn same(a: &Self, b: &Self) -> Option<(bool, bool)> {
                Some((a == b, a != b))
            }
        }
    };
}
words!(Matrix<R, C, N>, [const R: usize, const C: usize, const N: usize]);
words!(SquareMatrix<R, N>, [const R: usize, const N: usize]);
words!(MdsMatrix<T, T1, N, N1>, [const T: usize, const T1: usize, const N: usize, const N1: usize]);
words!(ArcMatrix<R, C, N>, [const R: usize, const C: usize, const N: usize]);
words!(OptimizedArcMatrix<R, C, N>, [const R: usize, const C: usize, const N: usize]);

impl<const NR: usize, const NP: usize, const T: usize, const T1: usize, const N: usize, const N1: usize> Words for OptimizedMdsMatrices<NR, NP, T, T1, N, N1> {
    fn visit(&mut self, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq) {
        matrix(&mut self.M_hat, &|| "M_hat".into(), f);
        matrix(&mut self.v, &|| "v".into(), f);
        matrix(&mut self.w, &|| "w".into(), f);
        matrix(&mut self.M_prime, &|| "M_prime".into(), f);
        matrix(&mut self.M_doubleprime, &|| "M_doubleprime".into(), f);
        matrix(&mut self.M_inverse, &|| "M_inverse".into(), f);
        matrix(&mut self.M_hat_inverse, &|| "M_hat_inverse".into(), f);
        self.M_00 = f(&|| "M_00".into(), self.M_00);
        matrix(&mut self.M_i, &|| "M_i".into(), f);
        for (k, m) in self.v_collection.iter_mut().enumerate() {
            matrix(m, &|| format!("v_collection[{k}]"), f);
        }
        for (k, m) in self.w_hat_collection.iter_mut().enumerate() {
            matrix(m, &|| format!("w_hat_collection[{k}]"), f);
        }
    }
    fn same(a: &Self, b: &Self) -> Option<(bool, bool)> {
        Some((a == b, a != b))
    }
}
impl<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const R: usize, const C: usize, const NE: usize, const NP: usize> Words
    for v1::PoseidonParameters<T, T1, NM, NM1, R, C, NE, NP>
{
    fn visit(&mut self, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq) {
        matrix(&mut self.mds, &|| "mds".into(), f);
        matrix(&mut self.arc, &|| "arc".into(), f);
        matrix(&mut self.optimized_arc, &|| "optimized_arc".into(), f);
        self.optimized_mds.visit(&mut |n, x| f(&|| format!("optimized_mds.{}", n()), x));
    }
    fn scalars(&self) -> Vec<String> {
        vec![self.M.to_string(), alpha(self.alpha), self.rounds.full().to_string(), self.rounds.partial().to_string()]
    }
}
impl<const T: usize, const NM: usize, const R: usize, const C: usize, const NE: usize> Words for v2::PoseidonParameters<T, NM, R, C, NE> {
    fn visit(&mut self, f: &mut dyn FnMut(&dyn Fn() -> String, Fq) -> Fq) {
        matrix(&mut self.m_e, &|| "m_e".into(), f);
        matrix(&mut self.m_i, &|| "m_i".into(), f);
        matrix(&mut self.arc, &|| "arc".into(), f);
    }
    fn scalars(&self) -> Vec<String> {
        vec![self.M.to_string(), alpha(self.alpha), self.rounds.full().to_string(), self.rounds.partial().to_string()]
    }
}
fn alpha(a: Alpha) -> String {
    match a {
        Alpha::Exponent(e) => e.to_string(),
        Alpha::Inverse => "inverse".into(),
    }
}

fn names<W: Words>(w: &mut W) -> Vec<String> {
    let mut v = vec![];
    w.visit(&mut |n, x| {
        v.push(n());
        x
    });
    v
}
/// The words, without going through a clone.
fn own<W: Words>(w: &mut W) -> Vec<Fq> {
    let mut v = vec![];
    w.visit(&mut |_, x| {
        v.push(x);
        x
    });
    v
}
/// Stores the words one after the other.
fn put<W: Words>(w: &mut W, v: &[Fq]) {
    let mut k = 0;
    w.visit(&mut |_, _| {
        k += 1;
        v[k - 1]
    });
}
/// The value, its clone and a value overwritten by clone_from must hold these words, and compare as the words do.
fn copy<W: Words>(case: &str, a: &mut W, other: &W, want: &[Fq]) -> Result<(), Bad> {
    let sc = a.scalars();
    let mut c = a.clone();
    let mut d = other.clone();
    d.clone_from(a);
    for (how, x) in [("the value itself", own(a)), ("its clone", own(&mut c)), ("the target of clone_from", own(&mut d))] {
        if x != want {
            let k = (0..want.len()).find(|k| x.get(*k) != Some(&want[*k])).unwrap_or(0);
            return Err(bad(case, format!("{how} holds another word {k} ({})", names(a)[k])));
        }
    }
    for (how, s) in [("its clone", c.scalars()), ("the target of clone_from", d.scalars())] {
        if s != sc {
            return Err(bad(case, format!("{how} holds {s:?} instead of {sc:?}")));
        }
    }
    for (how, x) in [("its clone", &c), ("the target of clone_from", &d), ("itself", &*a)] {
        if !matches!(W::same(a, x), None | Some((true, false))) || !matches!(W::same(x, a), None | Some((true, false))) {
            return Err(bad(case, format!("does not compare equal to {how}")));
        }
    }
    // writing to the clone leaves the original alone, and the other way round
    let z: Vec<Fq> = want.iter().map(|x| *x + Fq::from(1u64)).collect();
    put(&mut c, &z);
    if own(a) != want || own(&mut c) != z {
        return Err(bad(case, "changed when its clone was written to"));
    }
    Ok(())
}
fn differ<W: Words>(case: &dyn Fn() -> String, a: &W, b: &W) -> Result<(), Bad> {
    for (x, y) in [(a, b), (b, a)] {
        if let Some(r) = W::same(x, y) {
            if r != (false, true) {
                return Err(bad(case(), "compares equal to a value with other contents"));
            }
        }
    }
    Ok(())
}
/// All single-word changes, and exchanges of two words, of every base content.
fn explore<W: Words + Sync>(run: &Run, name: &str, base: &W, deltas: &[Fe]) {
    run.begin();
    let nm = names(&mut base.clone());
    let n = nm.len();
    let bases: Vec<Vec<Fq>> = vec![
        own(&mut base.clone()),
        vec![Fq::from(0u64); n],
        vec![Fq::from(1u64); n],
        (0..n).map(|k| fq(noise(21, k, 3))).collect(),
        (0..n).map(|k| if k % 2 == 0 { Fq::from(0u64) } else { fq(noise(22, k, 1)) }).collect(),
    ];
    let mut other = base.clone();
    put(&mut other, &(0..n).map(|k| fq(noise(23, k, 5))).collect::<Vec<_>>());
    let total = bases.len() * n;
    let r = run.par(total, |i| {
        let (want, k) = (&bases[i / n], i % n);
        let mut a = base.clone();
        put(&mut a, want);
        let case = || format!("{name}, base {}, word {} = {}", i / n, k, nm[k]);
        let res = guard(|| {
            if k == 0 {
                copy(&case(), &mut a, &other, want)?;
            }
            let mut count = 0;
            let mut b = a.clone();
            let mut v = want.clone();
            for (q, d) in deltas.iter().enumerate() {
                v[k] = want[k] + fq(*d);
                put(&mut b, &v);
                differ(&|| format!("{} changed by {}", case(), d.hex()), &a, &b)?;
                // the whole copy once per word of large collections, for every change of small ones
                if n <= 64 || q == 0 {
                    copy(&format!("{} changed by {}", case(), d.hex()), &mut b, &other, &v)?;
                }
                count += 1;
            }
            v[k] = want[k];
            for l in k + 1..n.min(k + if n <= 64 { 64 } else { 5 }) {
                if want[k] != want[l] {
                    v.swap(k, l);
                    put(&mut b, &v);
                    v.swap(k, l);
                    differ(&|| format!("{} exchanged with word {l}", case()), &a, &b)?;
                    count += 1;
                }
            }
            Ok(count)
        });
        let count: u64 = res.map_err(|e| bad(case(), format!("panicked: {e}")))??;
        run.count(count, 8 * count, 4 * count);
        Ok(())
    });
    run.end(&format!("{name}: {n} words, {} bases, {} changes of each and exchanges", bases.len(), deltas.len()));
    run.check(r);
}
/// All pairs of contents over an alphabet.
fn pairs<W: Words + Sync>(run: &Run, name: &str, base: &W, alpha: &[Fe]) {
    run.begin();
    let alpha: Vec<Fq> = alpha.iter().map(|x| fq(*x)).collect();
    let n = names(&mut base.clone()).len();
    let total = alpha.len().pow(n as u32);
    let all: Vec<W> = (0..total)
        .map(|i| {
            let w = refmodel::space::word(i, alpha.len(), n);
            let mut m = base.clone();
            put(&mut m, &w.iter().map(|k| alpha[*k]).collect::<Vec<_>>());
            m
        })
        .collect();
    let r = run.par(total, |i| {
        let r = guard(|| (0..total).find(|j| !matches!(W::same(&all[i], &all[*j]), Some((e, u)) if e == (i == *j) && u != e)));
        run.count(total as u64, total as u64, total as u64);
        let show = |k: usize| mc_core::show(&own(&mut all[k].clone()).iter().map(|x| fe(*x)).collect::<Vec<_>>());
        match r {
            Ok(None) => Ok(()),
            Ok(Some(j)) => Err(bad(format!("{name}: {} and {}", show(i), show(j)), "compare wrongly")),
            Err(e) => Err(bad(format!("{name}: {}", show(i)), format!("panicked: {e}"))),
        }
    });
    run.end(&format!("{name}: all {total}^2 pairs"));
    run.check(r);
}
/// Every scalar of a parameter set survives copying.
fn scalars<W: Words + Sync>(run: &Run, name: &str, base: &W, set: impl Fn(&mut W, usize, Alpha, usize, usize)) {
    run.begin();
    let es = [0usize, 1, 2, 5, 80, 127, 128, 129, 255, 256, 257, 65535, 65536, 1 << 31, u32::MAX as usize, usize::MAX];
    let mut al: Vec<Alpha> = es.iter().filter(|e| **e <= u32::MAX as usize).map(|e| Alpha::Exponent(*e as u32)).collect();
    al.extend([Alpha::Exponent(17), Alpha::Inverse]);
    let mut other = base.clone();
    set(&mut other, 77, Alpha::Exponent(23), 13, 29);
    let want = own(&mut base.clone());
    let mut one = |m: usize, a: Alpha, f: usize, p: usize| {
        let mut x = base.clone();
        set(&mut x, m, a, f, p);
        run.count(1, 4, 2);
        let case = format!("{name}: M={m} alpha={} r_F={f} r_P={p}", alpha(a));
        if x.scalars() != [m.to_string(), alpha(a), f.to_string(), p.to_string()] {
            return Err(bad(case, format!("holds {:?}", x.scalars())));
        }
        match guard(|| copy(&case, &mut x, &other, &want)) {
            Ok(r) => r,
            Err(e) => Err(bad(case, format!("panicked: {e}"))),
        }
    };
    let mut r = Ok(());
    for e in es {
        for a in &al {
            r = r.and_then(|_| one(e, *a, 8, 31));
            for f in [0, 8, 255, 256, usize::MAX] {
                r = r.and_then(|_| one(128, *a, f, e));
                r = r.and_then(|_| one(128, *a, e, f));
            }
        }
    }
    run.end(&format!("{name}: levels, exponents and round numbers"));
    run.check(r);
}

/// Equality does not depend on how a value came about.
fn origin<W: Words + Sync>(run: &Run, name: &str, contents: usize, makers: &[fn(usize) -> W]) {
    run.begin();
    let r = run.par(contents * contents, |i| {
        let (c, d) = (i / contents, i % contents);
        for (x, f) in makers.iter().enumerate() {
            for (y, g) in makers.iter().enumerate() {
                let (mut a, mut b) = guard(|| (f(c), g(d))).map_err(|e| bad(format!("{name}, contents {c} and {d}"), format!("panicked: {e}")))?;
                let (wa, wb) = (own(&mut a), own(&mut b));
                run.count(1, 2, 1);
                if W::same(&a, &b) != Some((wa == wb, wa != wb)) {
                    return Err(bad(format!("{name}: contents {c} made in way {x}, contents {d} made in way {y}"), "compare wrongly"));
                }
                if c == d && wa != wb {
                    return Err(bad(format!("{name}: contents {c} made in ways {x} and {y}"), "hold different words"));
                }
            }
        }
        Ok(())
    });
    run.end(&format!("{name}: {contents} contents, {} ways to make them, all pairs", makers.len()));
    run.check(r);
}
fn elems<const N: usize>(c: usize) -> [Fq; N] {
    core::array::from_fn(|k| match c {
        0 => Fq::from(0u64),
        1 => Fq::from(1u64),
        2 => fq(noise(41, k, 0)),
        3 => Fq::from(k as u64),
        _ => fq(if k == c - 4 { Fe::one() } else { Fe::zero() }),
    })
}
fn written<M: MatrixOperations>(mut m: M, e: &[Fq]) -> M {
    let c = m.n_cols();
    for (k, x) in e.iter().enumerate().rev() {
        m.set_element(k / c, k % c, *x);
    }
    m
}
fn rectangle<const R: usize, const C: usize, const N: usize>(run: &Run) {
    origin::<Matrix<R, C, N>>(run, &format!("{R}x{C} matrix"), 4 + N, &[
        |c| Matrix::new(&elems::<N>(c)),
        |c| Matrix::new_from_known(elems::<N>(c)),
        |c| written(Matrix::new(&[Fq::from(9u64); N]), &elems::<N>(c)),
        |c| Matrix::<R, C, N>::new(&elems::<N>(c)).transpose().transpose(),
        |c| Matrix::<R, C, N>::new(&elems::<N>(c)).hadamard_product(&Matrix::new(&[Fq::from(1u64); N])).unwrap(),
    ]);
    origin::<ArcMatrix<R, C, N>>(run, &format!("{R}x{C} round constants"), 4 + N, &[
        |c| ArcMatrix::new(&elems::<N>(c)),
        |c| ArcMatrix::new_from_known(elems::<N>(c)),
        |c| ArcMatrix(Matrix::new(&elems::<N>(c))),
        |c| written(ArcMatrix::new(&[Fq::from(9u64); N]), &elems::<N>(c)),
        |c| ArcMatrix::<R, C, N>::new(&elems::<N>(c)).transpose().transpose(),
    ]);
    origin::<OptimizedArcMatrix<R, C, N>>(run, &format!("{R}x{C} optimized round constants"), 4 + N, &[
        |c| OptimizedArcMatrix::new(&elems::<N>(c)),
        |c| OptimizedArcMatrix::new_from_known(elems::<N>(c)),
        |c| written(OptimizedArcMatrix::new(&[Fq::from(9u64); N]), &elems::<N>(c)),
    ]);
}
fn square<const T: usize, const T1: usize, const N: usize, const N1: usize>(run: &Run) {
    origin::<SquareMatrix<T, N>>(run, &format!("{T}x{T} square matrix"), 4 + N, &[
        |c| SquareMatrix::new(&elems::<N>(c)),
        |c| SquareMatrix::new_from_known(elems::<N>(c)),
        |c| written(SquareMatrix::new(&[Fq::from(9u64); N]), &elems::<N>(c)),
        |c| SquareMatrix::<T, N>::new(&elems::<N>(c)).transpose().transpose(),
    ]);
    origin::<MdsMatrix<T, T1, N, N1>>(run, &format!("{T}x{T} MDS matrix"), 4 + N, &[
        |c| MdsMatrix::new(&elems::<N>(c)),
        |c| MdsMatrix::new_from_known(elems::<N>(c)),
        |c| MdsMatrix::from_elements(&elems::<N>(c)),
        |c| written(MdsMatrix::new(&[Fq::from(9u64); N]), &elems::<N>(c)),
    ]);
}
fn v1_set<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const R: usize, const C: usize, const NE: usize, const NP: usize>(
    run: &Run,
    name: &str,
    p: v1::PoseidonParameters<T, T1, NM, NM1, R, C, NE, NP>,
    deltas: &[Fe],
) {
    explore(run, &format!("{name}: MDS matrix"), &p.mds, deltas);
    explore(run, &format!("{name}: round constants"), &p.arc, deltas);
    explore(run, &format!("{name}: optimized round constants"), &p.optimized_arc, deltas);
    explore(run, &format!("{name}: optimized matrices"), &p.optimized_mds, &deltas[..deltas.len().min(6)]);
    explore(run, &format!("{name}: parameter set"), &p, &deltas[..if run.thorough() { 4 } else { 1 }]);
    scalars(run, name, &p, |x, m, a, f, p| {
        x.M = m;
        x.alpha = a;
        *x.rounds.full_mut() = f;
        *x.rounds.partial_mut() = p;
    });
}
fn v2_set<const T: usize, const NM: usize, const R: usize, const C: usize, const NE: usize>(run: &Run, deltas: &[Fe]) {
    let p: v2::PoseidonParameters<T, NM, R, C, NE> = v2::PoseidonParameters {
        M: 128,
        alpha: Alpha::Exponent(17),
        rounds: RoundNumbers { r_F: 8, r_P: 31 },
        m_e: SquareMatrix::new(&(0..NM).map(|k| fq(noise(31, k, 0))).collect::<Vec<_>>()),
        m_i: SquareMatrix::new(&(0..NM).map(|k| fq(noise(32, k, 0))).collect::<Vec<_>>()),
        arc: ArcMatrix::new(&(0..NE).map(|k| fq(noise(33, k, 0))).collect::<Vec<_>>()),
    };
    let name = format!("Poseidon2 parameters of width {T}, {R} x {C} constants");
    explore(run, &format!("{name}: matrix"), &p.m_e, deltas);
    explore(run, &name, &p, deltas);
    scalars(run, &name, &p, |x, m, a, f, p| {
        x.M = m;
        x.alpha = a;
        *x.rounds.full_mut() = f;
        *x.rounds.partial_mut() = p;
    });
}

fn main() {
    let run = Run::new("C24");
    check_conversion();
    // differences in every byte of the value, small ones and large ones
    let mut deltas = vec![Fe::one(), Fe::one().neg()];
    for k in if run.thorough() { (1..252).collect::<Vec<_>>() } else { vec![32, 64, 96, 128, 160, 192, 224, 248] } {
        deltas.push(p2(k));
    }
    // words of Montgomery form
    for k in 0..4 {
        let mut l = [0u64; 4];
        l[k] = 1;
        deltas.push(Fe::from_mont_limbs(l));
    }
    let core = refmodel::space::core();
    let bin = [Fe::zero(), Fe::one()];
    pairs(&run, "1x2 matrices over 40 values", &Matrix::<1, 2, 2>::new(&[Fq::from(0u64); 2]), &core[..core.len().min(40)]);
    pairs(&run, "2x2 matrices over 6 values", &Matrix::<2, 2, 4>::new(&[Fq::from(0u64); 4]), &core[..6]);
    pairs(&run, "2x2 square matrices over 6 values", &SquareMatrix::<2, 4>::new(&[Fq::from(0u64); 4]), &core[..6]);
    pairs(&run, "2x2 MDS matrices over 6 values", &MdsMatrix::<2, 1, 4, 1>::new(&[Fq::from(0u64); 4]), &core[..6]);
    pairs(&run, "3x3 square matrices over 0 and 1", &SquareMatrix::<3, 9>::new(&[Fq::from(0u64); 9]), &bin);
    pairs(&run, "5x2 round constants over 0 and 1", &ArcMatrix::<5, 2, 10>::new(&[Fq::from(0u64); 10]), &bin);
    pairs(&run, "2x5 optimized round constants over 0 and 1", &OptimizedArcMatrix::<2, 5, 10>::new(&[Fq::from(0u64); 10]), &bin);
    macro_rules! shapes {
        ($($r:literal x $c:literal)*) => { $( explore(&run, concat!(stringify!($r), "x", stringify!($c), " matrix"), &Matrix::<$r, $c, { $r * $c }>::new(&[Fq::from(3u64); $r * $c]), &deltas); )* };
    }
    shapes!(1 x 1 1 x 2 2 x 1 1 x 8 8 x 1 3 x 5 5 x 3 8 x 8 40 x 1 1 x 40);
    macro_rules! squares {
        ($($r:literal)*) => { $( explore(&run, concat!(stringify!($r), "x", stringify!($r), " square matrix"), &SquareMatrix::<$r, { $r * $r }>::new(&[Fq::from(3u64); $r * $r]), &deltas); )* };
    }
    squares!(1 2 3 4 5 6 7 8);
    rectangle::<1, 1, 1>(&run);
    rectangle::<1, 2, 2>(&run);
    rectangle::<3, 1, 3>(&run);
    rectangle::<2, 3, 6>(&run);
    rectangle::<3, 2, 6>(&run);
    rectangle::<4, 4, 16>(&run);
    rectangle::<7, 8, 56>(&run);
    square::<2, 1, 4, 1>(&run);
    square::<3, 2, 9, 4>(&run);
    square::<4, 3, 16, 9>(&run);
    square::<5, 4, 25, 16>(&run);
    square::<8, 7, 64, 49>(&run);
    v1_set(&run, "rate 1", poseidon377::RATE_1_PARAMS, &deltas);
    v1_set(&run, "rate 2", poseidon377::RATE_2_PARAMS, &deltas);
    v1_set(&run, "rate 3", poseidon377::RATE_3_PARAMS, &deltas);
    v1_set(&run, "rate 4", poseidon377::RATE_4_PARAMS, &deltas);
    v1_set(&run, "rate 5", poseidon377::RATE_5_PARAMS, &deltas);
    v1_set(&run, "rate 6", poseidon377::RATE_6_PARAMS, &deltas);
    v1_set(&run, "rate 7", poseidon377::RATE_7_PARAMS, &deltas);
    v2_set::<2, 4, 5, 2, 10>(&run, &deltas);
    v2_set::<3, 9, 39, 3, 117>(&run, &deltas);
    v2_set::<4, 16, 39, 1, 39>(&run, &deltas);
    v2_set::<8, 64, 39, 8, 312>(&run, &deltas);
    run.sample("rate 3: parameter set, base 0, word 200 = optimized_mds.M_prime[2][1] changed by 1");
    run.assume("types, shapes and contents outside the enumerated ones behave like those inside");
    run.pass()
}

//! C14: determinant, inverse, minors, cofactors for n = 1..8. Every permutation matrix (each is one
//! monomial of the determinant and of every minor), every 0/1 matrix up to 4x4, small-alphabet
//! matrices, and structured and singular families, against Gaussian elimination.
use decaf377::Fq;
use mc_core::*;
use mc_mat::*;
use poseidon_parameters::v1::*;
use refmodel::linalg::{self, Mat};
use refmodel::report::*;
use refmodel::{Fe, Field};

/// Non-generic view of the implementation for one size.
#[derive(Clone, Copy)]
struct Imp {
    n: usize,
    det: fn(&[Fq]) -> Fq,
    inv: fn(&[Fq]) -> Result<Vec<Fq>, String>,
    minors: fn(&[Fq]) -> Vec<Fq>,
    cof: fn(&[Fq]) -> Vec<Fq>,
}
fn det<const T: usize, const N: usize>(a: &[Fq]) -> Fq {
    SquareMatrix::<T, N>::new(a).determinant()
}
fn inv<const T: usize, const N: usize>(a: &[Fq]) -> Result<Vec<Fq>, String> {
    SquareMatrix::<T, N>::new(a).inverse().map(|m| m.elements().to_vec()).map_err(|e| format!("{e:?}"))
}
fn minors<const T: usize, const N: usize>(a: &[Fq]) -> Vec<Fq> {
    SquareMatrix::<T, N>::new(a).minors().elements().to_vec()
}
fn cof<const T: usize, const N: usize>(a: &[Fq]) -> Vec<Fq> {
    SquareMatrix::<T, N>::new(a).cofactors().elements().to_vec()
}

fn check(run: &Run, im: &Imp, a: &Mat<Fe>, full: bool) -> Result<(), Bad> {
    let n = im.n;
    let el = flat(a);
    let case = |w: &str| format!("{w} of {}", showm(a));
    let want = linalg::det(a);
    let d = guard(|| (im.det)(&el)).map_err(|e| bad(case("determinant"), format!("panicked: {e}")))?;
    run.count(1, 1, 1);
    if fe(d) != want {
        return Err(bad(case("determinant"), format!("{:?}, expected {want:?}", fe(d))));
    }
    if !full {
        return Ok(());
    }
    let r = guard(|| (im.inv)(&el)).map_err(|e| bad(case("inverse"), format!("panicked: {e} (determinant {want:?})")))?;
    run.count(0, 1, 1);
    match r {
        Ok(b) => {
            if want == Fe::zero() {
                return Err(bad(case("inverse"), "a matrix was returned for a singular matrix"));
            }
            let b = unflat(&b, n);
            let id = linalg::identity::<Fe>(n);
            if linalg::mul(a, &b) != id || linalg::mul(&b, a) != id {
                return Err(bad(case("inverse"), format!("{b:?} is not the inverse")));
            }
        }
        Err(e) => {
            if want != Fe::zero() {
                return Err(bad(case("inverse"), format!("error {e} for a matrix of determinant {want:?}")));
            }
        }
    }
    let c = guard(|| (im.cof)(&el)).map_err(|e| bad(case("cofactors"), format!("panicked: {e}")))?;
    let wc = gen(n, n, |i, j| if (i + j) % 2 == 0 { Fe::one() } else { Fe::one().neg() });
    if unflat(&c, n) != wc {
        return Err(bad(case("cofactors"), format!("{:?}", unflat(&c, n))));
    }
    if n >= 2 {
        let m = guard(|| (im.minors)(&el)).map_err(|e| bad(case("minors"), format!("panicked: {e}")))?;
        run.count(0, 1, 1);
        let w = gen(n, n, |i, j| linalg::det(&linalg::minor(a, i, j)));
        if unflat(&m, n) != w {
            return Err(bad(case("minors"), format!("{:?}, expected {w:?}", unflat(&m, n))));
        }
    }
    Ok(())
}

fn main() {
    let run = Run::new("C14");
    check_conversion();
    let th = run.thorough();
    let mut imps: Vec<Imp> = vec![];
    macro_rules! imps {
        ($($t:literal)*) => { $( imps.push(Imp { n: $t, det: det::<$t, { $t * $t }>, inv: inv::<$t, { $t * $t }>, minors: minors::<$t, { $t * $t }>, cof: cof::<$t, { $t * $t }> }); )* };
    }
    imps!(1 2 3 4 5 6 7 8);
    let core = refmodel::space::core();
    let (x, y) = (noise(3, 1, 1), Fe::from_u64(3).neg());

    for im in &imps {
        let n = im.n;
        run.begin();
        if n == 1 {
            let al = refmodel::space::wide(if th { 65536 } else { 1100 }, true);
            let r = run.par(al.len(), |i| check(&run, im, &vec![vec![al[i]]], true));
            run.end("1x1: every alphabet value");
            run.check(r);
            continue;
        }
        // structured families first: the smallest counterexamples are there
        let cs = square_contents(n, th);
        let r = run.par(cs.len(), |i| check(&run, im, &cs[i], true));
        run.end(&format!("{n}x{n}: {} structured matrices", cs.len()));
        run.check(r);
        run.sample(showm(&cs[cs.len() / 2]));
        let ps = perms(n);
        let full_limit = if th { 8 } else { 6 };
        let r = run.par(ps.len(), |i| {
            let p = &ps[i];
            // 8x8 expands into 7x7 determinants, all monomials of which are covered: a quarter in quick
            if n == 8 && !th && (i + p[0]) % 4 != 0 {
                return Ok(());
            }
            let m = gen(n, n, |a, b| if p[a] == b { if a == 0 { x } else { Fe::one() } } else { Fe::zero() });
            // 8x8: the inverse costs 64 determinants of order 7; transpositions, rotations and every
            // tenth permutation in quick, all in thorough
            let full = n <= full_limit || (n == 7 && i % 4 == 0) || i % 200 == 0;
            check(&run, im, &m, full)?;
            if n <= 5 {
                // two monomials: a permutation matrix plus the identity pattern scaled
                for k in [Fe::one(), y] {
                    let m2 = gen(n, n, |a, b| m[a][b].add(if a == b { k } else { Fe::zero() }));
                    check(&run, im, &m2, true)?;
                }
            }
            Ok(())
        });
        run.end(&format!("{n}x{n}: {} of {} permutation matrices", if n == 8 && !th { "a quarter" } else { "all" }, ps.len()));
        run.check(r);
        // small alphabets, complete
        let alphabets: Vec<Vec<Fe>> = match (n, th) {
            (2, _) => vec![core[..if th { 40.min(core.len()) } else { 20 }].to_vec()],
            (3, false) => vec![vec![Fe::zero(), Fe::one(), Fe::one().neg()]],
            (3, true) => vec![vec![Fe::zero(), Fe::one(), Fe::one().neg(), x], (0..5).map(Fe::from_u64).collect()],
            (4, _) => vec![vec![Fe::zero(), Fe::one()]],
            (5, true) => vec![vec![Fe::zero(), Fe::one()]],
            _ => vec![],
        };
        for al in alphabets {
            let k = al.len();
            let total = k.pow((n * n) as u32);
            let r = run.par(total, |i| {
                let w = refmodel::space::word(i, k, n * n);
                let m = gen(n, n, |a, b| al[w[a * n + b]]);
                check(&run, im, &m, n < 5)
            });
            run.end(&format!("{n}x{n}: all {total} matrices over {k} values"));
            run.check(r);
        }
        // patterns of zeros in a dense matrix: all for n <= 4, at most two zeros above
        let d = gen(n, n, |i, j| noise(15, i, j));
        let zs: Vec<u64> = if n <= 4 {
            (0..1u64 << (n * n)).collect()
        } else {
            let mut v = vec![];
            for a in 0..n * n {
                v.push(1u64 << a);
                for b in 0..a {
                    if th || n < 7 || b % 5 == 0 {
                        v.push(1 << a | 1 << b);
                    }
                }
            }
            v
        };
        let r = run.par(zs.len(), |i| {
            let m = gen(n, n, |a, b| if zs[i] >> (a * n + b) & 1 == 1 { Fe::zero() } else { d[a][b] });
            check(&run, im, &m, n <= 6 || (n == 7 && th) || i % 200 == 0)
        });
        run.end(&format!("{n}x{n}: {} zero patterns", zs.len()));
        run.check(r);
    }
    run.assume("entries outside the alphabets behave like those inside: determinant and minors are polynomials whose monomials are the permutation matrices enumerated");
    run.small();
    run.pass()
}

//! C16: MDS decomposition for n = 2..8 over structured contents and every unit matrix.
use decaf377::Fq;
use mc_core::*;
use mc_mat::*;
use poseidon_parameters::v1::*;
use refmodel::linalg::{self, Mat};
use refmodel::report::*;
use refmodel::{Fe, Field};

struct Parts {
    v: (usize, usize, Vec<Fq>),
    w: (usize, usize, Vec<Fq>),
    hat: (usize, usize, Vec<Fq>),
    tr: Vec<Fq>,
    m00: Fq,
    after: Vec<Fq>,
}
fn dims<M: MatrixOperations>(m: &M) -> (usize, usize, Vec<Fq>) {
    (m.n_rows(), m.n_cols(), m.elements().to_vec())
}
fn parts<const T: usize, const T1: usize, const N: usize, const N1: usize>(a: &[Fq], how: usize) -> Parts {
    let m: MdsMatrix<T, T1, N, N1> = match how {
        0 => MdsMatrix::new(a),
        1 => MdsMatrix::from_elements(a),
        _ => MdsMatrix::new_from_known(a.try_into().unwrap()),
    };
    Parts { v: dims(&m.v()), w: dims(&m.w()), hat: dims(&m.hat()), tr: m.transpose().elements().to_vec(), m00: m.get_element(0, 0), after: m.elements().to_vec() }
}
fn inverse<const T: usize, const T1: usize, const N: usize, const N1: usize>(a: &[Fq]) -> Vec<Fq> {
    MdsMatrix::<T, T1, N, N1>::new(a).inverse().elements().to_vec()
}
type PartsFn = fn(&[Fq], usize) -> Parts;
type InvFn = fn(&[Fq]) -> Vec<Fq>;

fn check(run: &Run, n: usize, f: PartsFn, g: InvFn, a: &Mat<Fe>, invert: bool) -> Result<(), Bad> {
    let el = flat(a);
    for how in 0..3 {
        let case = format!("MDS matrix (constructor {how}) {}", showm(a));
        let p = guard(|| f(&el, how)).map_err(|e| bad(&case[..], format!("panicked: {e}")))?;
        run.count(1, 5, 1);
        let v: Vec<Fe> = p.v.2.iter().map(|x| fe(*x)).collect();
        let w: Vec<Fe> = p.w.2.iter().map(|x| fe(*x)).collect();
        if (p.v.0, p.v.1, &v[..]) != (1, n - 1, &a[0][1..]) {
            return Err(bad(case, format!("v: {} x {} {v:?}", p.v.0, p.v.1)));
        }
        let ww: Vec<Fe> = (1..n).map(|i| a[i][0]).collect();
        if (p.w.0, p.w.1, &w) != (n - 1, 1, &ww) {
            return Err(bad(case, format!("w: {} x {} {w:?}", p.w.0, p.w.1)));
        }
        let h = unflat(&p.hat.2, n - 1);
        if (p.hat.0, p.hat.1) != (n - 1, n - 1) || h != linalg::minor(a, 0, 0) {
            return Err(bad(case, format!("hat: {} x {} {h:?}", p.hat.0, p.hat.1)));
        }
        if unflat(&p.tr, n) != linalg::transpose(a) {
            return Err(bad(case, format!("transpose: {:?}", unflat(&p.tr, n))));
        }
        if fe(p.m00) != a[0][0] || p.after != el {
            return Err(bad(case, "the matrix changed while it was read"));
        }
        let back = gen(n, n, |i, j| match (i, j) {
            (0, 0) => fe(p.m00),
            (0, j) => v[j - 1],
            (i, 0) => w[i - 1],
            (i, j) => h[i - 1][j - 1],
        });
        if &back != a {
            return Err(bad(case, format!("the parts assemble to {back:?}")));
        }
    }
    if invert && linalg::det(a) != Fe::zero() {
        let case = format!("inverse of the MDS matrix {}", showm(a));
        let b = guard(|| g(&el)).map_err(|e| bad(&case[..], format!("panicked: {e}")))?;
        run.count(0, 1, 1);
        let b = unflat(&b, n);
        if Some(&b) != linalg::inverse(a).as_ref() {
            return Err(bad(case, format!("{b:?}")));
        }
    }
    Ok(())
}

fn main() {
    let run = Run::new("C16");
    check_conversion();
    let mut im: Vec<(usize, PartsFn, InvFn)> = vec![];
    macro_rules! imps {
        ($($t:literal)*) => { $( im.push(($t, parts::<$t, { $t - 1 }, { $t * $t }, { ($t - 1) * ($t - 1) }>, inverse::<$t, { $t - 1 }, { $t * $t }, { ($t - 1) * ($t - 1) }>)); )* };
    }
    imps!(2 3 4 5 6 7 8);
    for (n, f, g) in im {
        run.begin();
        let mut cs = square_contents(n, run.thorough());
        for k in 0..n * n {
            for v in [Fe::one(), noise(3, 0, 0)] {
                cs.push(unit(n, n, k, v));
            }
        }
        // MDS matrices proper: Cauchy matrices over shifted and strided sequences
        for s in 0..if run.thorough() { 200 } else { 40 } {
            let (s, n) = (s as u64, n as u64);
            cs.push(gen(n as usize, n as usize, |i, j| Fe::from_u64((s + 1) * i as u64 + s * 7 + n * (s + 2) * 3 + j as u64).inv().unwrap()));
        }
        let r = run.par(cs.len(), |i| check(&run, n, f, g, &cs[i], run.thorough() || n < 8 || i % 4 == 0));
        run.end(&format!("{n}x{n}: {} matrices, three constructors", cs.len()));
        run.sample(showm(&cs[cs.len() - 1]));
        run.check(r);
        if n == 2 || run.thorough() && n == 3 {
            let core = refmodel::space::core();
            let k = if n == 2 { 20 } else { 5 };
            let total = (k as usize).pow((n * n) as u32);
            let r = run.par(total, |i| {
                let w = refmodel::space::word(i, k, n * n);
                check(&run, n, f, g, &gen(n, n, |a, b| core[w[a * n + b]]), true)
            });
            run.end(&format!("{n}x{n}: all matrices over {k} values"));
            run.check(r);
        }
    }
    run.assume("entries outside the alphabets behave like those inside");
    run.small();
    run.pass()
}

//! Dense linear algebra by Gaussian elimination (the code under test uses Laplace expansion).
use crate::field::Field;

pub type Mat<F> = Vec<Vec<F>>;

pub fn mul<F: Field>(a: &Mat<F>, b: &Mat<F>) -> Mat<F> {
    let n = a.len();
    let k = b.len();
    let m = if k == 0 { 0 } else { b[0].len() };
    let mut r = vec![vec![F::zero(); m]; n];
    for i in 0..n {
        assert_eq!(a[i].len(), k);
        for j in 0..m {
            let mut s = F::zero();
            for l in 0..k {
                s = s.add(a[i][l].mul(b[l][j]));
            }
            r[i][j] = s;
        }
    }
    r
}
pub fn mat_vec<F: Field>(a: &Mat<F>, v: &[F]) -> Vec<F> {
    a.iter()
        .map(|r| r.iter().zip(v).fold(F::zero(), |s, (x, y)| s.add(x.mul(*y))))
        .collect()
}
pub fn transpose<F: Field>(a: &Mat<F>) -> Mat<F> {
    let n = a.len();
    let m = a[0].len();
    (0..m).map(|j| (0..n).map(|i| a[i][j]).collect()).collect()
}
pub fn identity<F: Field>(n: usize) -> Mat<F> {
    (0..n)
        .map(|i| (0..n).map(|j| if i == j { F::one() } else { F::zero() }).collect())
        .collect()
}
pub fn det<F: Field>(a: &Mat<F>) -> F {
    let mut m = a.clone();
    let n = m.len();
    let mut d = F::one();
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| !m[r][c].is_zero()) else { return F::zero() };
        if p != c {
            m.swap(p, c);
            d = d.neg();
        }
        d = d.mul(m[c][c]);
        let iv = m[c][c].inv().unwrap();
        for r in c + 1..n {
            if m[r][c].is_zero() {
                continue;
            }
            let f = m[r][c].mul(iv);
            for k in c..n {
                let x = f.mul(m[c][k]);
                m[r][k] = m[r][k].sub(x);
            }
        }
    }
    d
}
pub fn rank<F: Field>(a: &Mat<F>) -> usize {
    let mut m = a.clone();
    if m.is_empty() {
        return 0;
    }
    let (n, w) = (m.len(), m[0].len());
    let mut r0 = 0;
    for c in 0..w {
        let Some(p) = (r0..n).find(|&r| !m[r][c].is_zero()) else { continue };
        m.swap(p, r0);
        let iv = m[r0][c].inv().unwrap();
        for r in 0..n {
            if r != r0 && !m[r][c].is_zero() {
                let f = m[r][c].mul(iv);
                for k in c..w {
                    let x = f.mul(m[r0][k]);
                    m[r][k] = m[r][k].sub(x);
                }
            }
        }
        r0 += 1;
        if r0 == n {
            break;
        }
    }
    r0
}
pub fn inverse<F: Field>(a: &Mat<F>) -> Option<Mat<F>> {
    let n = a.len();
    let mut m: Mat<F> = a
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut v = r.clone();
            v.extend((0..n).map(|j| if i == j { F::one() } else { F::zero() }));
            v
        })
        .collect();
    for c in 0..n {
        let p = (c..n).find(|&r| !m[r][c].is_zero())?;
        m.swap(p, c);
        let iv = m[c][c].inv().unwrap();
        for k in 0..2 * n {
            m[c][k] = m[c][k].mul(iv);
        }
        for r in 0..n {
            if r != c && !m[r][c].is_zero() {
                let f = m[r][c];
                for k in 0..2 * n {
                    let x = f.mul(m[c][k]);
                    m[r][k] = m[r][k].sub(x);
                }
            }
        }
    }
    Some(m.into_iter().map(|r| r[n..].to_vec()).collect())
}
/// Matrix without row i and column j.
pub fn minor<F: Field>(a: &Mat<F>, i: usize, j: usize) -> Mat<F> {
    a.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| {
            row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| *x).collect()
        })
        .collect()
}

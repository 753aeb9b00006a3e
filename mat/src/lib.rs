//! Contents and reference operations for the matrix properties.
use mc_core::{fe, fq};
use decaf377::Fq;
use refmodel::linalg::{self, Mat};
use refmodel::space::{self, p2};
use refmodel::{Fe, Field};

pub fn flat(m: &Mat<Fe>) -> Vec<Fq> {
    m.iter().flatten().map(|x| fq(*x)).collect()
}
pub fn unflat(v: &[Fq], c: usize) -> Mat<Fe> {
    v.chunks(c).map(|r| r.iter().map(|x| fe(*x)).collect()).collect()
}
pub fn showm(m: &Mat<Fe>) -> String {
    m.iter().map(|r| mc_core::show(r)).collect::<Vec<_>>().join(";")
}
pub fn gen(r: usize, c: usize, f: impl Fn(usize, usize) -> Fe) -> Mat<Fe> {
    (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect()
}
/// Fixed values that look like field elements "in general position".
pub fn noise(seed: u64, i: usize, j: usize) -> Fe {
    Fe::from_u64(seed * 1_000_003 + 131 * i as u64 + 17 * j as u64 + 7)
        .pow(5)
        .add(p2(200 + (i * 7 + j) % 48))
        .mul(Fe::from_u64(j as u64 * 37 + 11))
}
pub fn unit(r: usize, c: usize, k: usize, v: Fe) -> Mat<Fe> {
    gen(r, c, |i, j| if i * c + j == k { v } else { Fe::zero() })
}
/// Named contents for any shape; all of them small in number and structurally different.
pub fn contents(r: usize, c: usize, extra: &[Fe]) -> Vec<Mat<Fe>> {
    let f = Fe::from_u64;
    let n = (r * c) as u64;
    let mut v = vec![
        gen(r, c, |_, _| Fe::zero()),
        gen(r, c, |_, _| Fe::one()),
        gen(r, c, |i, j| f((i * c + j) as u64)),
        gen(r, c, |i, j| f((i * c + j) as u64 + 1)),
        gen(r, c, |i, j| f(n - (i * c + j) as u64).neg()),
        gen(r, c, |i, j| if i == j { Fe::one() } else { Fe::zero() }),
        gen(r, c, |i, j| if i + j + 1 == c { f(3) } else { Fe::zero() }),
        gen(r, c, |i, _| f(i as u64 + 1)),
        gen(r, c, |_, j| f(j as u64 + 1)),
        gen(r, c, |i, j| if (i + j) % 2 == 0 { Fe::one() } else { Fe::one().neg() }),
        gen(r, c, |i, j| f((i + j) as u64 + 1).inv().unwrap()),
        gen(r, c, |i, j| noise(1, i, j)),
        gen(r, c, |i, j| noise(2, i, j)),
        gen(r, c, |i, j| noise(3, i.min(j), i.max(j))),
        gen(r, c, |i, j| if i <= j { noise(4, i, j) } else { Fe::zero() }),
        gen(r, c, |i, j| if i >= j { noise(5, i, j) } else { Fe::zero() }),
        gen(r, c, |i, j| p2((i * c + j) * 4 % 252).add(if (i * c + j) * 4 >= 252 { Fe::one() } else { Fe::zero() })),
    ];
    for e in extra {
        v.push(gen(r, c, |_, _| *e));
    }
    v
}
pub fn scalars() -> Vec<Fe> {
    space::core()
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    go(n, &mut vec![], &mut out);
    out
}
/// Square matrices of the structures on which elimination, expansion and special-casing go wrong.
pub fn square_contents(n: usize, thorough: bool) -> Vec<Mat<Fe>> {
    let f = Fe::from_u64;
    let c = space::core();
    let mut v = contents(n, n, &[]);
    let dense = gen(n, n, |i, j| noise(9, i, j));
    // all scalar matrices over the core alphabet, and all dense ones with one core diagonal value
    for x in &c {
        v.push(gen(n, n, |i, j| if i == j { *x } else { Fe::zero() }));
        v.push(gen(n, n, |i, j| if i == j { *x } else { Fe::one() }));
    }
    // a special value at every position of a dense matrix
    let vals: Vec<Fe> = if thorough { c[..12].to_vec() } else { c[..4].to_vec() };
    for x in &vals {
        for k in 0..n * n {
            let mut m = dense.clone();
            m[k / n][k % n] = *x;
            v.push(m);
        }
    }
    // zero rows and columns, repeated and proportional rows and columns, row sums
    for i in 0..n {
        let mut m = dense.clone();
        m[i] = vec![Fe::zero(); n];
        v.push(linalg::transpose(&m));
        v.push(m);
        for j in 0..n {
            if i == j {
                continue;
            }
            for k in [Fe::one(), Fe::one().neg(), f(5)] {
                let mut m = dense.clone();
                m[i] = m[j].iter().map(|x| x.mul(k)).collect();
                v.push(linalg::transpose(&m));
                v.push(m);
            }
            // elementary matrices
            let mut m = linalg::identity(n);
            m[i][j] = f(7);
            v.push(m);
            // two zeros in one row / column / elsewhere
            let mut m = dense.clone();
            m[0][i] = Fe::zero();
            m[j][0] = Fe::zero();
            v.push(m);
        }
        if n > 1 {
            let mut m = dense.clone();
            m[i] = (0..n).map(|c| (0..n).filter(|r| *r != i).fold(Fe::zero(), |s, r| s.add(dense[r][c]))).collect();
            v.push(m);
        }
        // leading block zero
        v.push(gen(n, n, |a, b| if a <= i && b <= i { Fe::zero() } else { noise(6, a, b) }));
        v.push(gen(n, n, |a, b| if a + i >= n && b + i >= n { Fe::zero() } else { noise(6, a, b) }));
        // rank exactly i
        let l = gen(n, n, |a, b| if b < i { noise(7, a, b) } else { Fe::zero() });
        v.push(linalg::mul(&l, &gen(n, n, |a, b| noise(8, a, b))));
        // banded
        v.push(gen(n, n, |a, b| if a.abs_diff(b) <= i { noise(10, a, b) } else { Fe::zero() }));
    }
    // circulant, Vandermonde, Hilbert-like, antisymmetric, involutory, nilpotent
    v.push(gen(n, n, |i, j| f(((j + n - i) % n) as u64 + 2)));
    v.push(gen(n, n, |i, j| f(i as u64 + 2).pow(j as u64)));
    v.push(gen(n, n, |i, j| f((i + n + j) as u64).inv().unwrap()));
    v.push(gen(n, n, |i, j| match i.cmp(&j) {
        core::cmp::Ordering::Less => noise(12, i, j),
        core::cmp::Ordering::Equal => Fe::zero(),
        core::cmp::Ordering::Greater => noise(12, j, i).neg(),
    }));
    v.push(gen(n, n, |i, j| if j == i + 1 { Fe::one() } else { Fe::zero() }));
    v.push(gen(n, n, |i, j| if (i, j) == (0, 0) { noise(13, 0, 0) } else if i == j { Fe::one() } else { Fe::zero() }));
    // determinant forced to special values by scaling the first row
    if let Some(d) = linalg::det(&dense).inv() {
        for x in &c[..8.min(c.len())] {
            let mut m = dense.clone();
            m[0] = m[0].iter().map(|y| y.mul(d).mul(*x)).collect();
            v.push(m);
        }
    }
    v
}

use mc_small::*;
use poseidon_parameters::v1::*;

fn un(v: &[Fq], c: usize) -> Mat<Dy> {
    v.chunks(c).map(|r| r.iter().map(|x| dy(*x)).collect()).collect()
}
/// The i-th n x m matrix.
fn nth(i: u64, n: usize, m: usize) -> Mat<Dy> {
    state(i, n * m).chunks(m).map(|r| r.to_vec()).collect()
}
fn cmp(case: &dyn Fn() -> String, what: &str, got: &[Fq], want: &Mat<Dy>) -> Result<(), Bad> {
    if un(got, want[0].len()) != *want {
        return Err(bad(format!("{what}: {}", case()), format!("{:?}, expected {want:?}", un(got, want[0].len()))));
    }
    Ok(())
}

fn c14<const T: usize, const N: usize>(a: &Mat<Dy>) -> Result<u64, Bad> {
    let case = || format!("F_{} {a:?}", Dy::order());
    let want = linalg::det(a);
    let m = SquareMatrix::<T, N>::new(&flat(a));
    let d = dy(m.determinant());
    if d != want {
        return Err(bad(format!("determinant: {}", case()), format!("{d:?}, expected {want:?}")));
    }
    match (m.inverse(), linalg::inverse(a)) {
        (Ok(b), Some(w)) => cmp(&case, "inverse", b.elements(), &w)?,
        (Err(_), None) => (),
        (Ok(b), None) => return Err(bad(format!("inverse: {}", case()), format!("{:?} was returned for a singular matrix", un(b.elements(), T)))),
        (Err(e), Some(w)) => return Err(bad(format!("inverse: {}", case()), format!("error {e:?}, the inverse is {w:?}"))),
    }
    if T >= 2 {
        let w: Mat<Dy> = (0..T).map(|i| (0..T).map(|j| linalg::det(&linalg::minor(a, i, j))).collect()).collect();
        cmp(&case, "minors", m.minors().elements(), &w)?;
    }
    cmp(&case, "the matrix afterwards", m.elements(), a)?;
    Ok(2 + (T >= 2) as u64)
}

fn c16<const T: usize, const T1: usize, const N: usize, const N1: usize>(a: &Mat<Dy>) -> Result<u64, Bad> {
    let el = flat(a);
    let wv = vec![a[0][1..].to_vec()];
    let ww: Mat<Dy> = a[1..].iter().map(|r| vec![r[0]]).collect();
    let inv = linalg::inverse(a);
    for how in 0..3 {
        let case = || format!("F_{} MDS matrix (constructor {how}) {a:?}", Dy::order());
        let m: MdsMatrix<T, T1, N, N1> = match how {
            0 => MdsMatrix::new(&el),
            1 => MdsMatrix::from_elements(&el),
            _ => MdsMatrix::new_from_known(el.clone().try_into().unwrap()),
        };
        cmp(&case, "v", m.v().elements(), &wv)?;
        cmp(&case, "w", m.w().elements(), &ww)?;
        cmp(&case, "hat", m.hat().elements(), &linalg::minor(a, 0, 0))?;
        cmp(&case, "transpose", m.transpose().elements(), &linalg::transpose(a))?;
        if let Some(w) = &inv {
            cmp(&case, "inverse", m.inverse().elements(), w)?;
        }
        cmp(&case, "the matrix afterwards", m.elements(), a)?;
    }
    Ok(15)
}

fn unary<const R: usize, const C: usize, const N: usize>(a: &Mat<Dy>) -> Result<u64, Bad> {
    let case = || format!("F_{} {a:?}", Dy::order());
    let el = flat(a);
    let t = linalg::transpose(a);
    let m = Matrix::<R, C, N>::new(&el);
    cmp(&case, "transpose", m.transpose().elements(), &t)?;
    cmp(&case, "ArcMatrix transpose", ArcMatrix::<R, C, N>::new(&el).transpose().elements(), &t)?;
    cmp(&case, "OptimizedArcMatrix transpose", OptimizedArcMatrix::<R, C, N>::new(&el).transpose().elements(), &t)?;
    for i in 0..R {
        cmp(&case, "row_vector", m.row_vector(i).elements(), &vec![a[i].clone()])?;
    }
    for k in 0..Dy::order() {
        let w: Mat<Dy> = a.iter().map(|r| r.iter().map(|x| x.mul(Dy(k))).collect()).collect();
        cmp(&case, "scalar product", (m.clone() * fq(Dy(k))).elements(), &w)?;
        for (i, r) in a.iter().enumerate() {
            for (j, x) in r.iter().enumerate() {
                let mut n = m.clone();
                n.set_element(i, j, fq(Dy(k)));
                let mut w = a.clone();
                w[i][j] = Dy(k);
                cmp(&case, "set_element", n.elements(), &w)?;
                if dy(n.get_element(i, j)) != Dy(k) || (n == m) != (x.0 == k) {
                    return Err(bad(format!("set_element({i},{j},{k}): {}", case()), "get_element or the comparison disagrees"));
                }
            }
        }
    }
    Ok(3 + R as u64 + Dy::order() * (1 + N as u64))
}
fn had(a: &Mat<Dy>, b: &Mat<Dy>) -> Mat<Dy> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| p.mul(*q)).collect()).collect()
}
fn hadamard<const R: usize, const C: usize, const N: usize>(a: &Mat<Dy>, b: &Mat<Dy>) -> Result<u64, Bad> {
    let case = || format!("F_{} {a:?} . {b:?}", Dy::order());
    let (x, y) = (flat(a), flat(b));
    let w = had(a, b);
    let (m, n) = (Matrix::<R, C, N>::new(&x), Matrix::<R, C, N>::new(&y));
    cmp(&case, "Matrix", m.hadamard_product(&n).map_err(|e| bad(case(), format!("{e:?}")))?.elements(), &w)?;
    let (m, n) = (ArcMatrix::<R, C, N>::new(&x), ArcMatrix::<R, C, N>::new(&y));
    cmp(&case, "ArcMatrix", m.hadamard_product(&n).map_err(|e| bad(case(), format!("{e:?}")))?.elements(), &w)?;
    let (m, n) = (OptimizedArcMatrix::<R, C, N>::new(&x), OptimizedArcMatrix::<R, C, N>::new(&y));
    cmp(&case, "OptimizedArcMatrix", m.hadamard_product(&n).map_err(|e| bad(case(), format!("{e:?}")))?.elements(), &w)?;
    Ok(3)
}
fn product<const R: usize, const K: usize, const C: usize, const NA: usize, const NB: usize, const NC: usize>(a: &Mat<Dy>, b: &Mat<Dy>) -> Result<u64, Bad> {
    let case = || format!("F_{} {a:?} * {b:?}", Dy::order());
    let (m, n) = (Matrix::<R, K, NA>::new(&flat(a)), Matrix::<K, C, NB>::new(&flat(b)));
    let p: Matrix<R, C, NC> = mat_mul(&m, &n);
    cmp(&case, "mat_mul", p.elements(), &linalg::mul(a, b))?;
    Ok(1)
}
fn square<const T: usize, const T1: usize, const N: usize, const N1: usize>(a: &Mat<Dy>, b: &Mat<Dy>) -> Result<u64, Bad> {
    let case = || format!("F_{} {a:?} * {b:?}", Dy::order());
    let (x, y) = (flat(a), flat(b));
    let (m, n) = (SquareMatrix::<T, N>::new(&x), SquareMatrix::<T, N>::new(&y));
    let p: SquareMatrix<T, N> = square_mat_mul(&m, &n);
    cmp(&case, "square_mat_mul", p.elements(), &linalg::mul(a, b))?;
    let w = had(a, b);
    cmp(&case, "SquareMatrix hadamard", m.hadamard_product(&n).map_err(|e| bad(case(), format!("{e:?}")))?.elements(), &w)?;
    let (m, n) = (MdsMatrix::<T, T1, N, N1>::new(&x), MdsMatrix::<T, T1, N, N1>::new(&y));
    cmp(&case, "MdsMatrix hadamard", m.hadamard_product(&n).map_err(|e| bad(case(), format!("{e:?}")))?.elements(), &w)?;
    if (m == n) != (a == b) {
        return Err(bad(case(), "the comparison disagrees"));
    }
    Ok(3)
}

/// Every matrix of a shape over a field.
fn all1(run: &Run, what: &str, q: u64, n: usize, m: usize, f: fn(&Mat<Dy>) -> Result<u64, Bad>) {
    set_order(q);
    run.begin();
    let total = q.pow((n * m) as u32);
    let r = run.par(total as usize, |i| {
        let a = nth(i as u64, n, m);
        let c = guard(|| f(&a)).unwrap_or_else(|e| Err(bad(format!("F_{q} {a:?}"), format!("panicked: {e}"))))?;
        run.count(1, c, c);
        Ok(())
    });
    run.end(&format!("F_{q}: {what}all {total} {n}x{m} matrices"));
    run.check(r);
}
/// Every pair of matrices.
#[allow(clippy::too_many_arguments)]
fn all2(run: &Run, what: &str, q: u64, (r, k): (usize, usize), (k2, c): (usize, usize), f: fn(&Mat<Dy>, &Mat<Dy>) -> Result<u64, Bad>) {
    set_order(q);
    run.begin();
    let (x, y) = (q.pow((r * k) as u32), q.pow((k2 * c) as u32));
    let res = run.par(x as usize, |i| {
        let a = nth(i as u64, r, k);
        for j in 0..y {
            let b = nth(j, k2, c);
            let n = guard(|| f(&a, &b)).unwrap_or_else(|e| Err(bad(format!("F_{q} {a:?} {b:?}"), format!("panicked: {e}"))))?;
            run.count(1, n, n);
        }
        Ok(())
    });
    run.end(&format!("F_{q}: {what} of all {} pairs {r}x{k}, {k2}x{c}", x * y));
    run.check(res);
}

pub fn all(run: &Run, prop: &str) {
    let th = run.thorough();
    match prop {
        "C13" => {
            macro_rules! un {
                ($($r:literal $c:literal)*) => { $(
                    for q in [2u64, 3, 5, 7, 11, 13] {
                        let n = q.pow($r * $c);
                        if n <= if th { 5_000_000 } else { 400_000 } {
                            all1(run, "", q, $r, $c, unary::<$r, $c, { $r * $c }>);
                        }
                        if n.saturating_mul(n) <= if th { 50_000_000 } else { 4_000_000 } {
                            all2(run, "element-wise product", q, ($r, $c), ($r, $c), hadamard::<$r, $c, { $r * $c }>);
                        }
                    }
                )* };
            }
            un!(1 1 1 2 1 3 1 4 2 1 3 1 4 1 2 2 2 3 3 2 2 4 4 2 3 3 3 4 4 3 4 4);
            macro_rules! prod {
                ($($r:literal $k:literal $c:literal)*) => { $(
                    for q in [2u64, 3, 5, 7, 11] {
                        if q.saturating_pow($r * $k + $k * $c) <= if th { 200_000_000 } else { 6_000_000 } {
                            all2(run, "product", q, ($r, $k), ($k, $c), product::<$r, $k, $c, { $r * $k }, { $k * $c }, { $r * $c }>);
                        }
                    }
                )* };
            }
            prod!(1 1 1 1 1 2 2 1 1 1 2 1 2 1 2 1 2 2 2 2 1 1 3 1 1 4 1 1 5 1 1 6 1 1 7 1 1 8 1 1 3 2 2 3 1 3 1 3 3 2 1 1 2 3
                  2 2 2 2 2 3 3 2 2 2 3 2 3 2 3 2 3 3 3 3 2 3 3 3 1 4 2 2 4 1 2 4 2 4 2 4 4 1 4 1 4 4 4 4 1 2 5 2);
            macro_rules! sq {
                ($($t:literal)*) => { $(
                    for q in [2u64, 3, 5, 7, 11] {
                        if q.saturating_pow(2 * $t * $t) <= if th { 200_000_000 } else { 6_000_000 } {
                            all2(run, "square product", q, ($t, $t), ($t, $t), square::<$t, { $t - 1 }, { $t * $t }, { ($t - 1) * ($t - 1) }>);
                        }
                    }
                )* };
            }
            sq!(1 2 3);
        }
        _ => {
            for (t, qs, tqs) in [
                (1usize, vec![2u64, 3, 5, 7, 11, 13, 31, 251, 257, 4093], vec![]),
                (2, vec![2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31], vec![37, 41, 43, 47, 53, 59, 61]),
                (3, vec![2, 3, 5], vec![7]),
                (4, vec![2], vec![3]),
                (5, vec![], vec![2]),
            ] {
                for (i, q) in qs.iter().chain(tqs.iter()).enumerate() {
                    if i >= qs.len() && !th {
                        continue;
                    }
                    let q = *q;
                    match (prop, t) {
                        ("C14", 1) => all1(run, "", q, t, t, c14::<1, 1>),
                        ("C14", 2) => all1(run, "", q, t, t, c14::<2, 4>),
                        ("C14", 3) => all1(run, "", q, t, t, c14::<3, 9>),
                        ("C14", 4) => all1(run, "", q, t, t, c14::<4, 16>),
                        ("C14", 5) => all1(run, "", q, t, t, c14::<5, 25>),
                        ("C16", 2) => all1(run, "", q, t, t, c16::<2, 1, 4, 1>),
                        ("C16", 3) => all1(run, "", q, t, t, c16::<3, 2, 9, 4>),
                        ("C16", 4) => all1(run, "", q, t, t, c16::<4, 3, 16, 9>),
                        _ => (),
                    }
                }
            }
        }
    }
    run.sample(format!("F_{} {:?}", Dy::order(), nth(Dy::order() + 1, 2, 2)));
}

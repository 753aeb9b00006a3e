//! C13: matrix containers and arithmetic. Every shape up to 8x8 (and the long shapes the round
//! constants use), every operation, structured contents, every unit matrix pair for the products, and
//! all write/read histories up to a depth, against plain row-major vectors of vectors.
use decaf377::Fq;
use mc_mat::*;
use mc_core::*;
use poseidon_parameters::v1::*;
use refmodel::linalg::{self, Mat};
use refmodel::report::*;
use refmodel::{Fe, Field};

fn eqm<M: MatrixOperations>(what: &str, ty: &str, got: &M, want: &Mat<Fe>, case: &str) -> Result<(), Bad> {
    let (r, c) = (want.len(), want[0].len());
    let e = unflat(got.elements(), c);
    if got.n_rows() != r || got.n_cols() != c || &e != want {
        return Err(bad(format!("{ty} {what} of {case}"), format!("{} x {}: {e:?}\nexpected {r} x {c}: {want:?}", got.n_rows(), got.n_cols())));
    }
    for i in 0..r {
        for j in 0..c {
            if fe(got.get_element(i, j)) != want[i][j] {
                return Err(bad(format!("{ty} {what} of {case}"), format!("get_element({i},{j}) = {:?}, expected {:?}", fe(got.get_element(i, j)), want[i][j])));
            }
        }
    }
    let rows: Vec<Vec<Fe>> = got.iter_rows().map(|r| r.iter().map(|x| fe(*x)).collect()).collect();
    if &rows != want {
        return Err(bad(format!("{ty} {what} of {case}"), format!("iter_rows {rows:?}, expected {want:?}")));
    }
    Ok(())
}
fn had(a: &Mat<Fe>, b: &Mat<Fe>) -> Mat<Fe> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| p.mul(*q)).collect()).collect()
}
fn scale(a: &Mat<Fe>, k: Fe) -> Mat<Fe> {
    a.iter().map(|r| r.iter().map(|x| x.mul(k)).collect()).collect()
}

/// Everything that goes through the common trait.
fn container<M: MatrixOperations + Clone + PartialEq>(run: &Run, ty: &str, r: usize, c: usize, cs: &[Mat<Fe>], depth: usize) -> Result<(), Bad> {
    for a in cs {
        let case = showm(a);
        let m = M::new(&flat(a));
        eqm("new", ty, &m, a, &case)?;
        if m != m.clone() {
            return Err(bad(format!("{ty} clone of {case}"), "the clone is not equal"));
        }
        run.count(1, 2, 2);
        for b in cs {
            let n = M::new(&flat(b));
            let h = m.hadamard_product(&n).map_err(|e| bad(format!("{ty} hadamard_product {case} * {}", showm(b)), format!("error {e}")))?;
            eqm("hadamard_product", ty, &h, &had(a, b), &format!("{case} * {}", showm(b)))?;
            eqm("hadamard_product (left operand afterwards)", ty, &m, a, &case)?;
            eqm("hadamard_product (right operand afterwards)", ty, &n, b, &case)?;
            if (m == n) != (a == b) {
                return Err(bad(format!("{ty} {case} == {}", showm(b)), format!("comparison gives {}", m == n)));
            }
            run.count(1, 1, 1);
        }
    }
    // all histories of writes up to the depth, over positions x three values, read back completely
    let vals = [Fe::zero(), Fe::one().neg(), noise(77, 1, 2)];
    let ops = r * c * vals.len();
    let total = ops.pow(depth as u32);
    let base = gen(r, c, |i, j| Fe::from_u64((i * c + j) as u64 + 1));
    for h in 0..total {
        let mut m = M::new(&flat(&base));
        let mut want = base.clone();
        let mut k = h;
        let mut hist = vec![];
        for _ in 0..depth {
            let (op, v) = ((k % ops) / vals.len(), vals[k % vals.len()]);
            k /= ops;
            let (i, j) = (op / c, op % c);
            m.set_element(i, j, fq(v));
            want[i][j] = v;
            hist.push(format!("set({i},{j},{v:?})"));
            for (k, x) in m.elements().iter().enumerate() {
                if fe(*x) != want[k / c][k % c] || fe(m.get_element(k / c, k % c)) != want[k / c][k % c] {
                    return Err(bad(format!("{ty} {r}x{c} {}", hist.join(" ")), format!("element ({},{}) is {:?}, expected {:?}", k / c, k % c, fe(*x), want[k / c][k % c])));
                }
            }
        }
        run.count(depth as u64, depth as u64, depth as u64);
    }
    Ok(())
}
fn depth(n: usize, thorough: bool) -> usize {
    match (n, thorough) {
        (1..=4, true) => 4,
        (1..=4, false) => 3,
        (5..=9, true) => 3,
        (5..=64, _) => 2,
        _ => 1,
    }
}

fn rect<const R: usize, const C: usize, const N: usize>(run: &Run, cs: &[Mat<Fe>]) -> Result<(), Bad> {
    let d = depth(N, run.thorough());
    container::<Matrix<R, C, N>>(run, &format!("Matrix<{R},{C}>"), R, C, cs, d)?;
    container::<ArcMatrix<R, C, N>>(run, &format!("ArcMatrix<{R},{C}>"), R, C, cs, d)?;
    container::<OptimizedArcMatrix<R, C, N>>(run, &format!("OptimizedArcMatrix<{R},{C}>"), R, C, cs, d)?;
    let ks = scalars();
    for a in cs {
        let case = showm(a);
        let arr: [Fq; N] = flat(a).try_into().unwrap();
        let m = Matrix::<R, C, N>::new_from_known(arr);
        eqm("new_from_known", "Matrix", &m, a, &case)?;
        if m.elements != arr {
            return Err(bad(format!("Matrix elements of {case}"), "field differs"));
        }
        let at = linalg::transpose(a);
        eqm("transpose", "Matrix", &m.transpose(), &at, &case)?;
        let am = ArcMatrix::<R, C, N>::new_from_known(arr);
        eqm("new_from_known", "ArcMatrix", &am, a, &case)?;
        eqm("transpose", "ArcMatrix", &am.transpose(), &at, &case)?;
        if am.inner_elements() != arr {
            return Err(bad(format!("ArcMatrix inner_elements of {case}"), "differ from the elements"));
        }
        let om = OptimizedArcMatrix::<R, C, N>::new_from_known(arr);
        eqm("new_from_known", "OptimizedArcMatrix", &om, a, &case)?;
        eqm("transpose", "OptimizedArcMatrix", &om.transpose(), &at, &case)?;
        for i in 0..R {
            let rv = guard(|| m.row_vector(i)).map_err(|e| bad(format!("Matrix row_vector({i}) of {case}"), e))?;
            eqm(&format!("row_vector({i})"), "Matrix", &rv, &vec![a[i].clone()], &case)?;
        }
        for k in &ks {
            eqm(&format!("* {k:?}"), "Matrix", &(m.clone() * fq(*k)), &scale(a, *k), &case)?;
        }
        eqm("(after all reads)", "Matrix", &m, a, &case)?;
        run.count(1, (8 + R + ks.len()) as u64, (8 + R + ks.len()) as u64);
    }
    Ok(())
}

fn square<const T: usize, const T1: usize, const N: usize, const N1: usize>(run: &Run, cs: &[Mat<Fe>]) -> Result<(), Bad> {
    let d = depth(N, run.thorough());
    container::<SquareMatrix<T, N>>(run, &format!("SquareMatrix<{T}>"), T, T, cs, d)?;
    container::<MdsMatrix<T, T1, N, N1>>(run, &format!("MdsMatrix<{T}>"), T, T, cs, d)?;
    eqm("identity", "SquareMatrix", &SquareMatrix::<T, N>::identity(), &linalg::identity(T), "")?;
    for a in cs {
        let case = showm(a);
        let arr: [Fq; N] = flat(a).try_into().unwrap();
        let at = linalg::transpose(a);
        let m = SquareMatrix::<T, N>::new_from_known(arr);
        eqm("new_from_known", "SquareMatrix", &m, a, &case)?;
        eqm("transpose", "SquareMatrix", &m.transpose(), &at, &case)?;
        let x = MdsMatrix::<T, T1, N, N1>::new_from_known(arr);
        eqm("new_from_known", "MdsMatrix", &x, a, &case)?;
        eqm("transpose", "MdsMatrix", &x.transpose(), &at, &case)?;
        eqm("from_elements", "MdsMatrix", &MdsMatrix::<T, T1, N, N1>::from_elements(&arr), a, &case)?;
        for i in 0..T {
            let rv = guard(|| m.row_vector(i)).map_err(|e| bad(format!("SquareMatrix row_vector({i}) of {case}"), e))?;
            eqm(&format!("row_vector({i})"), "SquareMatrix", &rv, &vec![a[i].clone()], &case)?;
        }
        for k in scalars() {
            eqm(&format!("* {k:?}"), "SquareMatrix", &(m.clone() * fq(k)), &scale(a, k), &case)?;
        }
        for b in cs {
            let n = SquareMatrix::<T, N>::new(&flat(b));
            let p: SquareMatrix<T, N> = square_mat_mul(&m, &n);
            eqm("square_mat_mul", "SquareMatrix", &p, &linalg::mul(a, b), &format!("{case} * {}", showm(b)))?;
            eqm("square_mat_mul (left afterwards)", "SquareMatrix", &m, a, &case)?;
            eqm("square_mat_mul (right afterwards)", "SquareMatrix", &n, b, &case)?;
            run.count(1, 1, 1);
        }
        run.count(1, (6 + T) as u64, (6 + T) as u64);
    }
    // bilinear: all pairs of unit matrices
    let k = noise(31, 0, 1);
    for x in 0..N {
        let a = SquareMatrix::<T, N>::new(&flat(&unit(T, T, x, k)));
        for y in 0..N {
            let b = SquareMatrix::<T, N>::new(&flat(&unit(T, T, y, Fe::from_u64(3))));
            let p: SquareMatrix<T, N> = square_mat_mul(&a, &b);
            let (i, l, l2, j) = (x / T, x % T, y / T, y % T);
            let mut ok = true;
            let v = fq(k.mul(Fe::from_u64(3)));
            for (z, e) in p.elements().iter().enumerate() {
                ok &= *e == if l == l2 && z == i * T + j { v } else { Fq::from(0u64) };
            }
            run.count(1, 1, 1);
            if !ok {
                return Err(bad(format!("square_mat_mul {T}x{T} unit({i},{l}) * unit({l2},{j})"), format!("{:?}", unflat(p.elements(), T))));
            }
        }
    }
    Ok(())
}

/// The long shapes: one dimension far beyond the others. Every operation once on contents that differ
/// in every position, every element written once, and the products with a row and a column.
fn long<const R: usize, const C: usize, const N: usize>(run: &Run) -> Result<(), Bad> {
    let a = gen(R, C, |i, j| Fe::from_u64((i * C + j) as u64 * 3 + 1));
    let b = gen(R, C, |i, j| noise(5, i, j));
    let at = linalg::transpose(&a);
    let arr: [Fq; N] = flat(&a).try_into().unwrap();
    let case = format!("{R}x{C} entry (i,j) = 3(iC+j)+1");
    macro_rules! all {
        ($t:ident, $ty:literal) => {{
            for m in [$t::<R, C, N>::new(&arr), $t::<R, C, N>::new_from_known(arr)] {
                eqm("new", $ty, &m, &a, &case)?;
                eqm("transpose", $ty, &m.transpose(), &at, &case)?;
                eqm("transpose twice", $ty, &m.transpose().transpose(), &a, &case)?;
                let h = m.hadamard_product(&$t::<R, C, N>::new(&flat(&b))).map_err(|e| bad(format!("{} hadamard_product of {case}", $ty), format!("error {e}")))?;
                eqm("hadamard_product", $ty, &h, &had(&a, &b), &case)?;
                eqm("(after all reads)", $ty, &m, &a, &case)?;
            }
            let mut m = $t::<R, C, N>::new(&arr);
            let mut want = a.clone();
            for z in 0..N {
                let z = if z % 2 == 0 { z / 2 } else { N - 1 - z / 2 };
                m.set_element(z / C, z % C, fq(b[z / C][z % C]));
                want[z / C][z % C] = b[z / C][z % C];
                if m.elements() != &flat(&want)[..] {
                    return Err(bad(format!("{} set_element({},{}) of {case}", $ty, z / C, z % C), format!("{:?}", unflat(m.elements(), C))));
                }
            }
            eqm("after writing everything", $ty, &m, &b, &case)?;
            run.count(1, (10 + N) as u64, (10 + N) as u64);
        }};
    }
    all!(Matrix, "Matrix");
    all!(ArcMatrix, "ArcMatrix");
    all!(OptimizedArcMatrix, "OptimizedArcMatrix");
    let m = Matrix::<R, C, N>::new(&arr);
    for i in 0..R {
        let rv = guard(|| m.row_vector(i)).map_err(|e| bad(format!("Matrix row_vector({i}) of {case}"), e))?;
        eqm(&format!("row_vector({i})"), "Matrix", &rv, &vec![a[i].clone()], &case)?;
    }
    let k = noise(9, 1, 1);
    eqm(&format!("* {k:?}"), "Matrix", &(m.clone() * fq(k)), &scale(&a, k), &case)?;
    let row: Mat<Fe> = vec![(0..R).map(|i| noise(3, i, 0)).collect()];
    let p: Matrix<1, C, C> = mat_mul(&Matrix::<1, R, R>::new(&flat(&row)), &m);
    eqm("row times it", "mat_mul", &p, &linalg::mul(&row, &a), &case)?;
    let col: Mat<Fe> = (0..C).map(|i| vec![noise(4, i, 0)]).collect();
    let p: Matrix<R, 1, R> = mat_mul(&m, &Matrix::<C, 1, C>::new(&flat(&col)));
    eqm("it times a column", "mat_mul", &p, &linalg::mul(&a, &col), &case)?;
    run.count(1, (R + 3) as u64, (R + 3) as u64);
    Ok(())
}

/// The product of the implementation; the flag tells whether the operands came out unchanged.
fn mul_impl<const R: usize, const K: usize, const C: usize, const NA: usize, const NB: usize, const NC: usize>(a: &[Fq], b: &[Fq]) -> (Vec<Fq>, bool) {
    let m = Matrix::<R, K, NA>::new(a);
    let n = Matrix::<K, C, NB>::new(b);
    let p: Matrix<R, C, NC> = mat_mul(&m, &n);
    (p.elements().to_vec(), m.elements() == a && n.elements() == b && p.n_rows() == R && p.n_cols() == C)
}
#[allow(non_snake_case)]
fn product(run: &Run, R: usize, K: usize, C: usize, f: fn(&[Fq], &[Fq]) -> (Vec<Fq>, bool)) -> Result<(), Bad> {
    let k = noise(31, 0, 1);
    let three = Fe::from_u64(3);
    let v = fq(k.mul(three));
    let bs: Vec<Vec<Fq>> = (0..K * C).map(|y| flat(&unit(K, C, y, three))).collect();
    for x in 0..R * K {
        let a = flat(&unit(R, K, x, k));
        for (y, b) in bs.iter().enumerate() {
            let case = || format!("mat_mul {R}x{K} unit({},{}) * {K}x{C} unit({},{})", x / K, x % K, y / C, y % C);
            let (p, same) = guard(|| f(&a, b)).map_err(|e| bad(case(), format!("panicked: {e}")))?;
            let mut ok = same;
            for (z, e) in p.iter().enumerate() {
                ok &= *e == if x % K == y / C && z == (x / K) * C + y % C { v } else { Fq::from(0u64) };
            }
            run.count(1, 1, 1);
            if !ok {
                return Err(bad(case(), format!("{:?} operands unchanged: {same}", unflat(&p, C))));
            }
        }
    }
    for a in &contents(R, K, &[]) {
        for b in &contents(K, C, &[]) {
            let case = || format!("{} * {}", showm(a), showm(b));
            let (p, same) = guard(|| f(&flat(a), &flat(b))).map_err(|e| bad(case(), format!("panicked: {e}")))?;
            run.count(1, 1, 1);
            if unflat(&p, C) != linalg::mul(a, b) || !same {
                return Err(bad(case(), format!("{:?} expected {:?} operands unchanged: {same}", unflat(&p, C), linalg::mul(a, b))));
            }
        }
    }
    Ok(())
}

type Job = Box<dyn Fn(&Run) -> Result<(), Bad> + Sync>;

fn main() {
    let run = Run::new("C13");
    check_conversion();
    let core = refmodel::space::core();
    let ex: Vec<Fe> = if run.thorough() { core.clone() } else { core[..4].to_vec() };
    let mut jobs: Vec<(String, Job)> = vec![];
    macro_rules! rects {
        ($($r:literal: $($c:literal)*;)*) => { $($({
            let cs = contents($r, $c, &ex);
            jobs.push((format!("{}x{}", $r, $c), Box::new(move |run| rect::<$r, $c, { $r * $c }>(run, &cs))));
        })*)* };
    }
    rects!(1: 1 2 3 4 5 6 7 8 16 31; 2: 1 2 3 4 5 6 7 8 39; 3: 1 2 3 4 5 6 7 8; 4: 1 2 3 4 5 6 7 8; 5: 1 2 3 4 5 6 7 8;
           6: 1 2 3 4 5 6 7 8; 7: 1 2 3 4 5 6 7 8; 8: 1 2 3 4 5 6 7 8; 16: 1 16; 39: 1 2 3 4 5 6 7 8; 9: 9;);
    macro_rules! longs {
        (@n $n:literal: $($c:literal)*) => { $(
            jobs.push((format!("long {}x{}", $n, $c), Box::new(|run| long::<$n, $c, { $n * $c }>(run))));
            jobs.push((format!("long {}x{}", $c, $n), Box::new(|run| long::<$c, $n, { $n * $c }>(run))));
        )* };
        ($($n:literal)*: $cs:tt) => { $( longs!(@m $n: $cs); )* };
        (@m $n:literal: [$($c:literal)*]) => { longs!(@n $n: $($c)*); };
    }
    longs!(9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48
           49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 97 100 128 129 257: [2]);
    longs!(15 16 17 31 32 33 63 64 65: [1 3 8]);
    macro_rules! tall {
        ($($r:literal $c:literal,)*) => { $( jobs.push((format!("long {}x{}", $r, $c), Box::new(|run| long::<$r, $c, { $r * $c }>(run)))); )* };
    }
    tall!(9 10, 10 9, 10 10, 12 12, 16 17, 17 16, 17 17, 24 24, 32 32, 33 33, 33 17, 17 33,);
    macro_rules! squares {
        ($($t:literal)*) => { $({
            let cs = contents($t, $t, &ex);
            jobs.push((format!("square {}", $t), Box::new(move |run| square::<$t, { $t - 1 }, { $t * $t }, { ($t - 1) * ($t - 1) }>(run, &cs))));
        })* };
    }
    squares!(1 2 3 4 5 6 7 8 9);
    macro_rules! prods {
        (@c $r:literal $k:literal: $($c:literal)*) => { $(
            jobs.push((format!("product {}x{}x{}", $r, $k, $c), Box::new(|run| product(run, $r, $k, $c, mul_impl::<$r, $k, $c, { $r * $k }, { $k * $c }, { $r * $c }>))));
        )* };
        (@k $r:literal: $($k:literal)*) => { $( prods!(@c $r $k: 1 2 3 4 5 6 7 8); )* };
        ($($r:literal)*) => { $( prods!(@k $r: 1 2 3 4 5 6 7 8); )* };
    }
    prods!(1 2 3 4 5 6 7 8);
    run.begin();
    let n = jobs.len();
    // large jobs first
    jobs.reverse();
    let r = run.par(n, |i| guard(|| (jobs[i].1)(&run)).unwrap_or_else(|e| Err(bad(jobs[i].0.clone(), format!("panicked: {e}")))));
    run.end(&format!("{n} shapes"));
    run.check(r);
    // exhaustive contents for the small shapes
    let al: Vec<Fe> = core[..if run.thorough() { 8 } else { 5 }].to_vec();
    let k = al.len();
    let n = k.pow(8);
    let r = run.par(n, |i| {
        let w = refmodel::space::word(i, k, 8);
        let a: Mat<Fe> = vec![vec![al[w[0]], al[w[1]]], vec![al[w[2]], al[w[3]]]];
        let b: Mat<Fe> = vec![vec![al[w[4]], al[w[5]]], vec![al[w[6]], al[w[7]]]];
        let (m, o) = (SquareMatrix::<2, 4>::new(&flat(&a)), SquareMatrix::<2, 4>::new(&flat(&b)));
        let p: SquareMatrix<2, 4> = square_mat_mul(&m, &o);
        let p2: Matrix<2, 2, 4> = mat_mul(&m.0, &o.0);
        let want = linalg::mul(&a, &b);
        run.count(1, 2, 2);
        if unflat(p.elements(), 2) != want || unflat(p2.elements(), 2) != want {
            return Err(bad(format!("product {} * {}", showm(&a), showm(&b)), format!("{:?} {:?} expected {want:?}", unflat(p.elements(), 2), unflat(p2.elements(), 2))));
        }
        if i < k.pow(4) {
            let x = SquareMatrix::<2, 4>::new_2x2(fq(a[0][0]), fq(a[0][1]), fq(a[1][0]), fq(a[1][1]));
            eqm("new_2x2", "SquareMatrix", &x, &a, &showm(&a))?;
        }
        Ok(())
    });
    run.end(&format!("all pairs of 2x2 matrices over {k} values"));
    run.check(r);
    run.sample("mat_mul 8x8 unit(7,0) * unit(0,7)");
    run.assume("shapes above those enumerated and values outside the alphabets behave like those inside (the code indexes by shape only)");
    run.small();
    run.pass()
}

//! C15: every combination of declared sizes and slice lengths within the bounds is either well shaped,
//! and then accepted with the right contents, or ill shaped, and then panics.
use decaf377::Fq;
use mc_core::*;
use mc_mat::*;
use poseidon_parameters::v1::*;
use refmodel::linalg;
use refmodel::report::*;
use refmodel::{Fe, Field};

type New = fn(&[Fq]) -> Vec<Fq>;
fn values(n: usize, s: u64) -> Vec<Fq> {
    (0..n).map(|i| fq(noise(40 + s, i, 1))).collect()
}
/// The construction must succeed exactly when `ok`.
fn expect(run: &Run, case: String, ok: bool, want: &[Fq], f: impl FnOnce() -> Vec<Fq>) -> Result<(), Bad> {
    run.count(1, 1, 1);
    match (guard(f), ok) {
        (Ok(v), true) => {
            if v != want {
                return Err(bad(case, format!("accepted with the contents {v:?}, expected {want:?}")));
            }
            Ok(())
        }
        (Ok(v), false) => Err(bad(case, format!("ill shaped but accepted: {v:?}"))),
        (Err(e), true) => Err(bad(case, format!("well shaped but panicked: {e}"))),
        (Err(_), false) => Ok(()),
    }
}
fn new<M: MatrixOperations>(v: &[Fq]) -> Vec<Fq> {
    M::new(v).elements().to_vec()
}
fn known_m<const R: usize, const C: usize, const N: usize>(v: &[Fq]) -> Vec<Fq> {
    Matrix::<R, C, N>::new_from_known(v.try_into().unwrap()).elements().to_vec()
}
fn known_a<const R: usize, const C: usize, const N: usize>(v: &[Fq]) -> Vec<Fq> {
    ArcMatrix::<R, C, N>::new_from_known(v.try_into().unwrap()).elements().to_vec()
}
fn known_o<const R: usize, const C: usize, const N: usize>(v: &[Fq]) -> Vec<Fq> {
    OptimizedArcMatrix::<R, C, N>::new_from_known(v.try_into().unwrap()).elements().to_vec()
}
fn known_s<const R: usize, const N: usize>(v: &[Fq]) -> Vec<Fq> {
    SquareMatrix::<R, N>::new_from_known(v.try_into().unwrap()).elements().to_vec()
}
fn prod<const R: usize, const K: usize, const NA: usize, const K2: usize, const C: usize, const NB: usize, const N: usize>(a: &[Fq], b: &[Fq]) -> Vec<Fq> {
    let p: Matrix<R, C, N> = mat_mul(&Matrix::<R, K, NA>::new(a), &Matrix::<K2, C, NB>::new(b));
    p.elements().to_vec()
}
fn sprod<const R: usize, const NA: usize, const K2: usize, const NB: usize, const N: usize>(a: &[Fq], b: &[Fq]) -> Vec<Fq> {
    let p: SquareMatrix<R, N> = square_mat_mul(&SquareMatrix::<R, NA>::new(a), &SquareMatrix::<K2, NB>::new(b));
    p.elements().to_vec()
}
struct Ty {
    name: &'static str,
    ok: bool,
    n: usize,
    new: New,
    known: Option<New>,
}
#[inline(never)]
fn add(v: &mut Vec<Ty>, name: &'static str, ok: bool, n: usize, new: New, known: Option<New>) {
    v.push(Ty { name, ok, n, new, known });
}
struct Pr {
    name: &'static str,
    ok: bool,
    d: [usize; 4],
    f: Prod,
}
#[inline(never)]
fn addp(v: &mut Vec<Pr>, name: &'static str, ok: bool, d: &'static [usize; 4], f: Prod) {
    v.push(Pr { name, ok, d: *d, f });
}
type Prod = fn(&[Fq], &[Fq]) -> Vec<Fq>;

fn inst1(v: &mut Vec<Ty>) {
    macro_rules! shapes {
        (@n $r:literal $c:literal: $($n:literal)*) => { $({
            let ok = $r * $c == $n;
            add(v, concat!("Matrix<", $r, ", ", $c, ", ", $n, ">"), ok, $n, new::<Matrix<$r, $c, $n>>, Some(known_m::<$r, $c, $n>));
            add(v, concat!("ArcMatrix<", $r, ", ", $c, ", ", $n, ">"), ok, $n, new::<ArcMatrix<$r, $c, $n>>, Some(known_a::<$r, $c, $n>));
            add(v, concat!("OptimizedArcMatrix<", $r, ", ", $c, ", ", $n, ">"), ok, $n, new::<OptimizedArcMatrix<$r, $c, $n>>, Some(known_o::<$r, $c, $n>));
            if $r == $c {
                add(v, concat!("SquareMatrix<", $r, ", ", $n, ">"), ok, $n, new::<SquareMatrix<$r, $n>>, Some(known_s::<$r, $n>));
            }
        })* };
        (@c $r:literal: $($c:literal)*) => { $( shapes!(@n $r $c: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 21); )* };
        ($($r:literal)*) => { $( shapes!(@c $r: 1 2 3 4); )* };
    }
    shapes!(1 2 3 4 5);
}
fn inst2(v: &mut Vec<Ty>) {
    macro_rules! big {
        ($($r:literal $c:literal $n:literal,)*) => { $({
            let ok = $r * $c == $n;
            add(v, concat!("Matrix<", $r, ", ", $c, ", ", $n, ">"), ok, $n, new::<Matrix<$r, $c, $n>>, Some(known_m::<$r, $c, $n>));
            add(v, concat!("ArcMatrix<", $r, ", ", $c, ", ", $n, ">"), ok, $n, new::<ArcMatrix<$r, $c, $n>>, Some(known_a::<$r, $c, $n>));
        })* };
    }
    big!(8 8 63, 8 8 64, 8 8 65, 7 8 56, 7 8 64, 8 7 49, 39 8 311, 39 8 312, 39 8 313, 8 39 312, 6 6 35, 6 6 36, 6 6 49, 7 7 36, 7 7 49, 7 7 64, 16 16 256, 16 16 255, 1 8 9, 1 8 7, 8 1 9, 8 1 7,);
}
fn inst3(v: &mut Vec<Ty>) {
    macro_rules! mds {
        (@x $t:literal $u:literal $n:literal: $($m:literal)*) => { $({
            let ok = $t == $u + 1 && $t * $t == $n && $u * $u == $m;
            add(v, concat!("MdsMatrix<", $t, ", ", $u, ", ", $n, ", ", $m, ">"), ok, $n, new::<MdsMatrix<$t, $u, $n, $m>>, None);
        })* };
        (@n $t:literal $u:literal: $($n:literal)*) => { $( mds!(@x $t $u $n: 0 1 2 4 6 9 16); )* };
        (@u $t:literal: $($u:literal)*) => { $( mds!(@n $t $u: 1 2 4 6 8 9 12 16); )* };
        ($($t:literal)*) => { $( mds!(@u $t: 0 1 2 3 4); )* };
    }
    mds!(1 2 3 4);
}
fn products(p: &mut Vec<Pr>) {
    macro_rules! prods {
        (@n $r:literal $k:literal $l:literal $c:literal: $($n:literal)*) => { $(
            addp(p, concat!("mat_mul<", $r, "x", $k, ", ", $l, "x", $c, " -> ", $n, " elements>"), $k == $l && $r * $c == $n, &[$r, $k, $l, $c],
                prod::<$r, $k, { $r * $k }, $l, $c, { $l * $c }, $n>);
        )* };
        (@c $r:literal $k:literal $l:literal: $($c:literal)*) => { $( prods!(@n $r $k $l $c: 0 1 2 3 4 6 8 9 12); )* };
        (@l $r:literal $k:literal: $($l:literal)*) => { $( prods!(@c $r $k $l: 1 2 3 4); )* };
        (@k $r:literal: $($k:literal)*) => { $( prods!(@l $r $k: 1 2 3); )* };
        ($($r:literal)*) => { $( prods!(@k $r: 1 2 3); )* };
    }
    prods!(1 2 3);
    macro_rules! sprods {
        (@n $r:literal $l:literal: $($n:literal)*) => { $(
            addp(p, concat!("square_mat_mul<", $r, ", ", $l, " -> ", $n, " elements>"), $r == $l && $r * $r == $n, &[$r, $r, $l, $l], sprod::<$r, { $r * $r }, $l, { $l * $l }, $n>);
        )* };
        (@l $r:literal: $($l:literal)*) => { $( sprods!(@n $r $l: 1 2 4 6 8 9 12 16 20 25 36 49 64); )* };
        ($($r:literal)*) => { $( sprods!(@l $r: 1 2 3 4 5 6 7 8); )* };
    }
    sprods!(1 2 3 4 5 6 7 8);
}
fn instantiations(v: &mut Vec<Ty>) {
    inst1(v);
    inst2(v);
    inst3(v);
}

fn main() {
    let run = Run::new("C15");
    check_conversion();
    // (type, rows, cols, N, well-shaped parameters, new, exact-length constructor)
    let mut v: Vec<Ty> = vec![];
    instantiations(&mut v);
    run.begin();
    let r = run.par(v.len(), |i| {
        let Ty { name: ty, ok, n, new: f, known: k } = &v[i];
        for len in 0..=n + 6 {
            let s = values(len, 1);
            expect(&run, format!("{ty}::new with a slice of {len} elements"), *ok && len == *n, &s, || f(&s))?;
        }
        for len in [2 * n + 7, n * n + 3 * n + 9, 625] {
            let s = values(len, 1);
            expect(&run, format!("{ty}::new with a slice of {len} elements"), *ok && len == *n, &s, || f(&s))?;
        }
        if let Some(k) = k {
            let s = values(*n, 2);
            expect(&run, format!("{ty}::new_from_known"), *ok, &s, || k(&s))?;
        }
        Ok(())
    });
    run.end(&format!("{} type instantiations x slice lengths", v.len()));
    run.sample(v[v.len() / 3].name);
    run.check(r);

    // products: (case, well shaped, shapes, function)
    let mut p: Vec<Pr> = vec![];
    products(&mut p);
    let r = run.par(p.len(), |i| {
        let Pr { name: case, ok, d: [r, k, l, c], f } = &p[i];
        // general, zero and unit contents: a shape must be refused whatever the numbers are
        for z in 0..3 {
            let mk = |n: usize, s: u64| match z {
                0 => values(n, s),
                1 => vec![Fq::from(0u64); n],
                _ => vec![Fq::from(1u64); n],
            };
            let (a, b) = (mk(r * k, 3), mk(l * c, 4));
            let want = if *ok { flat(&linalg::mul(&unflat(&a, *k), &unflat(&b, *c))) } else { vec![] };
            expect(&run, format!("{case} contents {z}"), *ok, &want, || f(&a, &b))?;
        }
        Ok(())
    });
    run.end(&format!("{} product instantiations", p.len()));
    run.sample(p[p.len() / 3].name);
    run.check(r);
    let _ = Fe::zero();
    run.assume("sizes above those enumerated behave like those inside (every check compares sizes only)");
    run.pass()
}

//! Custom parameter sets: from the reference description to the implementation's types.
use crate::{fe, fq, fqs};
use decaf377::Fq;
use poseidon_parameters::v1::{
    Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, OptimizedArcMatrix, OptimizedMdsMatrices,
    PoseidonParameters, RoundNumbers, SquareMatrix,
};
use poseidon_permutation::Instance;
use refmodel::linalg::{self, Mat};
use refmodel::poseidon::{self, Params, Sbox};
use refmodel::{Fe, Field};

pub fn flat(m: &Mat<Fe>) -> Vec<Fq> {
    m.iter().flatten().map(|x| fq(*x)).collect()
}
fn flatv(m: &[Fe]) -> Vec<Fq> {
    m.iter().map(|x| fq(*x)).collect()
}

pub fn build<
    const T: usize,
    const T1: usize,
    const NM: usize,
    const NM1: usize,
    const ROWS: usize,
    const NE: usize,
    const RP: usize,
>(
    p: &Params<Fe>,
) -> PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> {
    let o = &p.opt;
    PoseidonParameters {
        M: p.m,
        alpha: match p.sbox {
            Sbox::Pow(e) => Alpha::Exponent(e as u32),
            Sbox::Inv => Alpha::Inverse,
        },
        rounds: RoundNumbers { r_P: p.r_p, r_F: p.r_f },
        mds: MdsMatrix::new(&flat(&p.mds)),
        arc: ArcMatrix::new(&flat(&p.arc)),
        optimized_arc: OptimizedArcMatrix::new(&flat(&o.arc)),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&flat(&o.m_hat)),
            v: Matrix::new(&flatv(&o.v)),
            w: Matrix::new(&flatv(&o.w)),
            M_prime: SquareMatrix::new(&flat(&o.m_prime)),
            M_doubleprime: SquareMatrix::new(&flat(&o.m_doubleprime)),
            M_inverse: SquareMatrix::new(&flat(&o.m_inverse)),
            M_hat_inverse: SquareMatrix::new(&flat(&o.m_hat_inverse)),
            M_00: fq(o.m_00),
            M_i: Matrix::new(&flat(&o.m_i)),
            v_collection: core::array::from_fn(|i| Matrix::new(&flatv(&o.v_coll[i]))),
            w_hat_collection: core::array::from_fn(|i| Matrix::new(&flatv(&o.w_hat_coll[i]))),
        },
    }
}

/// (digest, words) for each input, optimized and textbook, on fresh instances.
pub type Outs = ((Fe, Vec<Fe>), (Fe, Vec<Fe>));
pub fn eval<
    const T: usize,
    const T1: usize,
    const NM: usize,
    const NM1: usize,
    const ROWS: usize,
    const NE: usize,
    const RP: usize,
>(
    pp: &PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP>,
    v: &[Fe],
    want_opt: bool,
) -> Outs {
    let words = |i: &Instance<T, T1, NM, NM1, ROWS, T, NE, RP>| -> Vec<Fe> {
        i.output_words().iter().map(|x| fe(*x)).collect()
    };
    let mut i = Instance::new(pp);
    let o = if want_opt {
        let d = i.n_to_1_fixed_hash(&fqs::<T>(v));
        (fe(d), words(&i))
    } else {
        (Fe([0; 4]), vec![])
    };
    let mut i = Instance::new(pp);
    let d = i.unoptimized_n_to_1_fixed_hash(fqs::<T>(v));
    let u = (fe(d), words(&i));
    (o, u)
}

/// Call `$f::<T, T1, NM, NM1, ROWS, NE, RP>($args)` for a (t, r_f, r_p) known at run time.
#[macro_export]
macro_rules! for_shapes {
    ($t:expr, $rf:expr, $rp:expr, $f:ident ( $($a:expr),* )) => {{
        macro_rules! shape {
            ($T:literal, $RF:literal, $RP:literal) => {
                if ($t, $rf, $rp) == ($T, $RF, $RP) {
                    return $f::<$T, { $T - 1 }, { $T * $T }, { ($T - 1) * ($T - 1) }, { $RF + $RP }, { ($RF + $RP) * $T }, $RP>($($a),*);
                }
            };
        }
        macro_rules! widths {
            ($RF:literal, $RP:literal) => {
                shape!(2, $RF, $RP); shape!(3, $RF, $RP); shape!(4, $RF, $RP); shape!(5, $RF, $RP);
                shape!(6, $RF, $RP); shape!(7, $RF, $RP); shape!(8, $RF, $RP);
            };
        }
        widths!(2, 1);
        widths!(2, 2);
        widths!(4, 3);
        widths!(6, 2);
        widths!(8, 31);
        shape!(2, 0, 2);
        shape!(3, 0, 3);
        shape!(2, 10, 40);
        shape!(3, 10, 33);
        shape!(4, 12, 7);
        shape!(5, 10, 1);
        panic!("no such shape")
    }};
}
pub fn shapes() -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for t in 2..=8 {
        for (f, p) in [(2, 1), (2, 2), (4, 3), (6, 2), (8, 31)] {
            v.push((t, f, p));
        }
    }
    v.extend([(2, 0, 2), (3, 0, 3), (2, 10, 40), (3, 10, 33), (4, 12, 7), (5, 10, 1)]);
    v
}

/// The round numbers of the sweep over round numbers alone: (width r_F r_P).
#[macro_export]
macro_rules! round_numbers {
    ($go:ident) => {
        $go! {
            (2 2 3) (2 2 4) (2 2 5) (2 2 6) (2 2 7) (2 2 8) (2 2 9) (2 2 10) (2 2 11) (2 2 12) (2 2 13) (2 2 14) (2 2 15) (2 2 16) (2 2 17) (2 2 18) (2
            2 19) (2 2 20) (2 2 21) (2 2 22) (2 2 23) (2 2 24) (2 2 25) (2 2 26) (2 2 27) (2 2 28) (2 2 29) (2 2 30) (2 2 31) (2 2 32) (2 2 33) (2 2 34)
            (2 2 35) (2 2 36) (2 2 37) (2 2 38) (2 2 39) (2 2 40) (2 2 41) (2 2 42) (2 2 43) (2 2 44) (2 2 45) (2 2 46) (2 2 47) (2 2 48) (2 4 1) (2 6
            1) (2 8 1) (2 10 1) (2 12 1) (2 14 1) (2 16 1) (2 18 1) (2 20 1) (2 22 1) (2 24 1) (2 4 5) (2 6 9) (2 8 16) (2 8 64) (2 2 100) (3 2 3) (3 2
            4) (3 2 5) (3 2 6) (3 2 7) (3 2 8) (3 2 9) (3 2 10) (3 2 11) (3 2 12) (3 2 13) (3 2 14) (3 2 15) (3 2 16) (3 2 17) (3 2 18) (3 2 19) (3 2
            20) (3 4 1) (3 6 1) (3 8 1) (3 10 1) (3 12 1) (3 14 1) (3 16 1) (3 4 8) (3 8 57) (4 2 4) (4 2 5) (4 2 6) (4 2 7) (4 2 8) (4 2 9) (4 8 1) (4
            4 4) (4 6 6) (5 2 4) (5 2 5) (5 4 4) (5 6 5) (6 2 4) (6 2 5) (6 4 4) (6 6 5) (7 2 4) (7 2 5) (7 4 4) (7 6 5) (8 2 4) (8 2 5) (8 4 4) (8 6 5)
        }
    };
}
/// As `for_shapes`, for the sweep.
#[macro_export]
macro_rules! for_rounds {
    ($t:expr, $rf:expr, $rp:expr, $f:ident ( $($a:expr),* )) => {{
        macro_rules! shape {
            ($T:literal, $RF:literal, $RP:literal) => {
                if ($t, $rf, $rp) == ($T, $RF, $RP) {
                    return $f::<$T, { $T - 1 }, { $T * $T }, { ($T - 1) * ($T - 1) }, { $RF + $RP }, { ($RF + $RP) * $T }, $RP>($($a),*);
                }
            };
        }
        macro_rules! go {
            ($d:tt) => {
                macro_rules! each {
                    ($d(($T:literal $RF:literal $RP:literal))*) => { $d(shape!($T, $RF, $RP);)* };
                }
            };
        }
        go!($);
        $crate::round_numbers!(each);
        panic!("no such shape")
    }};
}
pub fn rounds() -> Vec<(usize, usize, usize)> {
    macro_rules! list {
        ($(($t:literal $f:literal $p:literal))*) => { vec![$(($t, $f, $p)),*] };
    }
    round_numbers!(list)
}

pub fn filler(seed: u64, n: usize) -> Vec<Fe> {
    // fixed, pairwise different constants (not random: same every run)
    (0..n as u64)
        .map(|i| Fe::from_u64(seed * 1_000_003 + i * 7919 + 3).pow(7).add(refmodel::space::p2(37 + (i as usize % 200))))
        .collect()
}
pub fn mat(seed: u64, n: usize, m: usize) -> Mat<Fe> {
    filler(seed, n * m).chunks(m.max(1)).map(|c| c.to_vec()).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MatKind {
    Cauchy,
    ShiftedCauchy,
    Dense,
    Circulant,
    Identity,
    Zero,
    Swap,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ArcKind {
    Dense,
    Zero,
    Counter,
}

pub fn mds(k: MatKind, t: usize) -> Mat<Fe> {
    match k {
        MatKind::Cauchy => poseidon::cauchy(t),
        MatKind::ShiftedCauchy => (0..t as u64)
            .map(|i| (0..t as u64).map(|j| Fe::from_u64(3 * i + 50 + 7 * j).inv().unwrap()).collect())
            .collect(),
        MatKind::Dense => mat(11, t, t),
        MatKind::Circulant => (0..t)
            .map(|i| (0..t).map(|j| Fe::from_u64([2, 3, 1, 1, 5, 1, 7, 1][(j + t - i) % t])).collect())
            .collect(),
        MatKind::Identity => linalg::identity(t),
        MatKind::Zero => vec![vec![Fe::zero(); t]; t],
        MatKind::Swap => (0..t)
            .map(|i| (0..t).map(|j| if i + j == t - 1 { Fe::one() } else { Fe::zero() }).collect())
            .collect(),
    }
}

/// (params, consistent)
pub fn make(t: usize, rf: usize, rp: usize, sb: Sbox, mk: MatKind, ak: ArcKind, poison: bool) -> (Params<Fe>, bool) {
    let m = mds(mk, t);
    let rows = rf + rp;
    let arc: Mat<Fe> = match ak {
        ArcKind::Dense => mat(5, rows, t),
        ArcKind::Zero => vec![vec![Fe::zero(); t]; rows],
        ArcKind::Counter => (0..rows)
            .map(|r| (0..t).map(|j| Fe::from_u64((r * t + j) as u64 + 1)).collect())
            .collect(),
    };
    let opt = poseidon::derive_opt(&m, &arc, rf, rp);
    let consistent = opt.is_some() && !poison;
    let opt = match (opt, poison) {
        (Some(o), false) => o,
        _ => poseidon::Opt {
            m_hat: mat(21, t - 1, t - 1),
            v: filler(22, t - 1),
            w: filler(23, t - 1),
            m_prime: mat(24, t, t),
            m_doubleprime: mat(25, t, t),
            m_inverse: mat(26, t, t),
            m_hat_inverse: mat(27, t - 1, t - 1),
            m_00: filler(28, 1)[0],
            m_i: mat(29, t, t),
            v_coll: mat(30, rp, t - 1),
            w_hat_coll: mat(31, rp, t - 1),
            arc: mat(32, rows, t),
        },
    };
    (Params { t, m: 80 + t, r_f: rf, r_p: rp, sbox: sb, mds: m, arc, opt }, consistent)
}

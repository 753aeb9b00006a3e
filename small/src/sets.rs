//! Parameter sets over a small field.
use crate::*;
use poseidon_parameters::v1::{
    Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, OptimizedArcMatrix, OptimizedMdsMatrices, PoseidonParameters, RoundNumbers, SquareMatrix,
};

pub fn build<const T: usize, const T1: usize, const NM: usize, const NM1: usize, const ROWS: usize, const NE: usize, const RP: usize>(
    p: &Params<Dy>,
) -> PoseidonParameters<T, T1, NM, NM1, ROWS, T, NE, RP> {
    let o = &p.opt;
    PoseidonParameters {
        M: p.m,
        alpha: match p.sbox {
            Sbox::Pow(e) => Alpha::Exponent(e as u32),
            Sbox::Inv => Alpha::Inverse,
        },
        rounds: RoundNumbers { r_P: p.r_p, r_F: p.r_f },
        mds: MdsMatrix::new(&flat(&p.mds)),
        arc: ArcMatrix::new(&flat(&p.arc)),
        optimized_arc: OptimizedArcMatrix::new(&flat(&o.arc)),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&flat(&o.m_hat)),
            v: Matrix::new(&flatv(&o.v)),
            w: Matrix::new(&flatv(&o.w)),
            M_prime: SquareMatrix::new(&flat(&o.m_prime)),
            M_doubleprime: SquareMatrix::new(&flat(&o.m_doubleprime)),
            M_inverse: SquareMatrix::new(&flat(&o.m_inverse)),
            M_hat_inverse: SquareMatrix::new(&flat(&o.m_hat_inverse)),
            M_00: fq(o.m_00),
            M_i: Matrix::new(&flat(&o.m_i)),
            v_collection: core::array::from_fn(|i| Matrix::new(&flatv(&o.v_coll[i]))),
            w_hat_collection: core::array::from_fn(|i| Matrix::new(&flatv(&o.w_hat_coll[i]))),
        },
    }
}

/// Fixed filler values.
pub fn filler(seed: u64, n: usize) -> Vec<Dy> {
    let p = Dy::order();
    let mut x = seed * 2654435761 + 12345;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            Dy((x >> 33) % p)
        })
        .collect()
}
pub fn fmat(seed: u64, n: usize, m: usize) -> Mat<Dy> {
    filler(seed, n * m).chunks(m.max(1)).map(|c| c.to_vec()).collect()
}
/// Opt fields unrelated to the textbook ones.
pub fn unrelated(t: usize, rows: usize, rp: usize) -> Opt<Dy> {
    Opt {
        m_hat: fmat(21, t - 1, t - 1),
        v: filler(22, t - 1),
        w: filler(23, t - 1),
        m_prime: fmat(24, t, t),
        m_doubleprime: fmat(25, t, t),
        m_inverse: fmat(26, t, t),
        m_hat_inverse: fmat(27, t - 1, t - 1),
        m_00: filler(28, 1)[0],
        m_i: fmat(29, t, t),
        v_coll: fmat(30, rp, t - 1),
        w_hat_coll: fmat(31, rp, t - 1),
        arc: fmat(32, rows, t),
    }
}
/// (parameters, the two forms describe the same permutation)
pub fn make(rf: usize, rp: usize, sb: Sbox, mds: Mat<Dy>, arc: Mat<Dy>, poison: bool) -> (Params<Dy>, bool) {
    let t = mds.len();
    let opt = if poison { None } else { poseidon::derive_opt(&mds, &arc, rf, rp) };
    let c = opt.is_some();
    let opt = opt.unwrap_or_else(|| unrelated(t, rf + rp, rp));
    (Params { t, m: 80 + t, r_f: rf, r_p: rp, sbox: sb, mds, arc, opt }, c)
}
pub fn gen(n: usize, m: usize, f: impl Fn(u64, u64) -> u64) -> Mat<Dy> {
    (0..n as u64).map(|i| (0..m as u64).map(|j| Dy::from_u64(f(i, j))).collect()).collect()
}
/// Matrices of width t, the generic ones first.
pub fn matrices(t: usize) -> Vec<(&'static str, Mat<Dy>)> {
    let p = Dy::order();
    let mut v: Vec<(&'static str, Mat<Dy>)> = vec![];
    if p + 1 >= 3 * t as u64 {
        v.push(("Cauchy", poseidon::cauchy(t)));
    }
    // dense ones that decompose, found by trying seeds in order
    let mut n = 0;
    for s in 0..400 {
        let m = fmat(100 + s, t, t);
        if poseidon::derive_opt(&m, &gen(4, t, |_, _| 0), 2, 2).is_some() {
            v.push(("dense", m));
            n += 1;
            if n == 3 {
                break;
            }
        }
    }
    v.push(("circulant", gen(t, t, |i, j| [2, 3, 1, 1, 5, 1, 7, 1][((j + t as u64 - i) % t as u64) as usize])));
    v.push(("identity", linalg::identity(t)));
    v.push(("swap", gen(t, t, |i, j| (i + j == t as u64 - 1) as u64)));
    v.push(("triangular", gen(t, t, |i, j| (i <= j) as u64)));
    v.push(("zero", gen(t, t, |_, _| 0)));
    v.push(("singular", gen(t, t, |i, j| (i + 1) * (j + 1))));
    v
}
pub fn constants(rows: usize, t: usize) -> Vec<(&'static str, Mat<Dy>)> {
    vec![("dense", fmat(5, rows, t)), ("zero", gen(rows, t, |_, _| 0)), ("counter", gen(rows, t, |i, j| i * t as u64 + j + 1))]
}
/// Call `$f::<T, T1, NM, NM1, ROWS, NE, RP>($args)` for a (t, r_f, r_p) known at run time.
#[macro_export]
macro_rules! for_shapes {
    ($t:expr, $rf:expr, $rp:expr, $f:ident ( $($a:expr),* )) => {{
        macro_rules! shape {
            ($T:literal, $RF:literal, $RP:literal) => {
                if ($t, $rf, $rp) == ($T, $RF, $RP) {
                    return $f::<$T, { $T - 1 }, { $T * $T }, { ($T - 1) * ($T - 1) }, { $RF + $RP }, { ($RF + $RP) * $T }, $RP>($($a),*);
                }
            };
        }
        macro_rules! widths {
            ($RF:literal, $RP:literal) => {
                shape!(2, $RF, $RP); shape!(3, $RF, $RP); shape!(4, $RF, $RP); shape!(5, $RF, $RP);
                shape!(6, $RF, $RP); shape!(7, $RF, $RP); shape!(8, $RF, $RP);
            };
        }
        widths!(2, 1);
        widths!(2, 2);
        widths!(4, 3);
        shape!(2, 8, 31);
        shape!(3, 8, 31);
        shape!(2, 0, 2);
        panic!("no such shape")
    }};
}
pub fn shapes() -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for t in 2..=8 {
        for (f, p) in [(2, 1), (2, 2), (4, 3)] {
            v.push((t, f, p));
        }
    }
    v.extend([(2, 8, 31), (3, 8, 31), (2, 0, 2)]);
    v
}
/// One description of a parameter set, made on demand.
#[derive(Clone)]
pub struct Desc {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub sb: Sbox,
    pub mds: (String, Mat<Dy>),
    pub arc: (String, Mat<Dy>),
    pub poison: bool,
}
impl Desc {
    pub fn make(&self) -> (Params<Dy>, bool) {
        make(self.rf, self.rp, self.sb, self.mds.1.clone(), self.arc.1.clone(), self.poison)
    }
    pub fn show(&self) -> String {
        format!(
            "F_{} t={} r_F={} r_P={} {:?} mds={} {:?} constants={} {:?}{}",
            Dy::order(), self.t, self.rf, self.rp, self.sb, self.mds.0, self.mds.1, self.arc.0,
            if self.rp > 10 { vec![] } else { self.arc.1.clone() },
            if self.poison { " independent optimized fields" } else { "" }
        )
    }
}

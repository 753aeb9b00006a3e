//! Parameter derivation and the two permutations, as a round-by-round transition system.
use crate::field::{Fe, Field, Q};
use crate::linalg::{self, Mat};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sbox {
    Pow(u64),
    Inv,
}

#[derive(Clone, Debug)]
pub struct Params<F> {
    pub t: usize,
    pub m: usize,
    pub r_f: usize,
    pub r_p: usize,
    pub sbox: Sbox,
    pub mds: Mat<F>,
    pub arc: Mat<F>,
    pub opt: Opt<F>,
}

/// The optimized form (Appendix B of the paper).
#[derive(Clone, Debug)]
pub struct Opt<F> {
    pub m_hat: Mat<F>,
    pub v: Vec<F>,
    pub w: Vec<F>,
    pub m_prime: Mat<F>,
    pub m_doubleprime: Mat<F>,
    pub m_inverse: Mat<F>,
    pub m_hat_inverse: Mat<F>,
    pub m_00: F,
    pub m_i: Mat<F>,
    pub v_coll: Vec<Vec<F>>,
    pub w_hat_coll: Vec<Vec<F>>,
    pub arc: Mat<F>,
}

pub fn sbox<F: Field>(s: Sbox, x: F) -> F {
    match s {
        Sbox::Pow(e) => x.pow(e),
        Sbox::Inv => x.inv().unwrap_or(F::zero()),
    }
}

/// Optimized matrices and constants from (mds, arc, rounds). None if a needed matrix is singular.
pub fn derive_opt<F: Field>(mds: &Mat<F>, arc: &Mat<F>, r_f: usize, r_p: usize) -> Option<Opt<F>> {
    let t = mds.len();
    let hat = |m: &Mat<F>| linalg::minor(m, 0, 0);
    let prime = |h: &Mat<F>| -> Mat<F> {
        (0..t)
            .map(|i| {
                (0..t)
                    .map(|j| {
                        if i == 0 && j == 0 {
                            F::one()
                        } else if i == 0 || j == 0 {
                            F::zero()
                        } else {
                            h[i - 1][j - 1]
                        }
                    })
                    .collect()
            })
            .collect()
    };
    let col = |m: &Mat<F>| -> Vec<F> { (1..t).map(|i| m[i][0]).collect() };
    let row = |m: &Mat<F>| -> Vec<F> { m[0][1..].to_vec() };
    let m_hat = hat(mds);
    let m_hat_inverse = linalg::inverse(&m_hat)?;
    let m_inverse = linalg::inverse(mds)?;
    let (v, w) = (row(mds), col(mds));
    let m_prime = prime(&m_hat);
    let w_hat0 = linalg::mat_vec(&m_hat_inverse, &w);
    let mut m_doubleprime = linalg::identity(t);
    m_doubleprime[0][0] = mds[0][0];
    for i in 1..t {
        m_doubleprime[0][i] = v[i - 1];
        m_doubleprime[i][0] = w_hat0[i - 1];
    }
    // Working on row vectors, M^T = M' * M'' is split off once per partial round, last round first.
    let mt = linalg::transpose(mds);
    let mut cur = mt.clone();
    let mut mi = prime(&hat(&cur));
    let (mut v_coll, mut w_hat_coll) = (vec![], vec![]);
    for _ in 0..r_p {
        let h = hat(&cur);
        v_coll.push(row(&cur));
        w_hat_coll.push(linalg::mat_vec(&linalg::inverse(&h)?, &col(&cur)));
        mi = prime(&h);
        cur = linalg::mul(&mt, &mi);
    }
    // Constants: push the constants of partial round i+1, except the first word, back through the
    // linear layer of round i.
    let half = r_f / 2;
    let mut c = arc.clone();
    let inv = &m_inverse;
    if r_p > 0 {
        for r in (half..half + r_p - 1).rev() {
            // column-vector form: M^{-1} c_{r+1}
            let back = linalg::mat_vec(inv, &c[r + 1]);
            for j in 1..t {
                c[r][j] = c[r][j].add(back[j]);
            }
            c[r + 1] = vec![F::zero(); t];
            c[r + 1][0] = back[0];
        }
    }
    Some(Opt {
        m_hat,
        v,
        w,
        m_prime,
        m_doubleprime,
        m_inverse,
        m_hat_inverse,
        m_00: mds[0][0],
        m_i: linalg::transpose(&mi),
        v_coll,
        w_hat_coll,
        arc: c,
    })
}

/// One element per step kind, so a run is an explicit sequence of transitions.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Arc(usize),
    SboxFull,
    SboxPartial,
    Mds,
    // optimized only
    ArcOpt(usize),
    MatI,
    ArcFirst(usize),
    Sparse(usize),
}

pub fn textbook_steps(r_f: usize, r_p: usize) -> Vec<Step> {
    let h = r_f / 2;
    let mut s = vec![];
    for r in 0..r_f + r_p {
        s.push(Step::Arc(r));
        s.push(if r < h || r >= h + r_p { Step::SboxFull } else { Step::SboxPartial });
        s.push(Step::Mds);
    }
    s
}
pub fn optimized_steps(r_f: usize, r_p: usize) -> Vec<Step> {
    let h = r_f / 2;
    let mut s = vec![];
    for r in 0..h {
        s.extend([Step::ArcOpt(r), Step::SboxFull, Step::Mds]);
    }
    s.extend([Step::ArcOpt(h), Step::MatI]);
    for i in 0..r_p {
        s.push(Step::SboxPartial);
        if i + 1 < r_p {
            s.push(Step::ArcFirst(h + i + 1));
        }
        s.push(Step::Sparse(r_p - 1 - i));
    }
    for r in h + r_p..r_f + r_p {
        s.extend([Step::ArcOpt(r), Step::SboxFull, Step::Mds]);
    }
    s
}

pub fn apply<F: Field>(p: &Params<F>, st: Step, s: &mut Vec<F>) {
    let t = p.t;
    match st {
        Step::Arc(r) => (0..t).for_each(|i| s[i] = s[i].add(p.arc[r][i])),
        Step::ArcOpt(r) => (0..t).for_each(|i| s[i] = s[i].add(p.opt.arc[r][i])),
        Step::ArcFirst(r) => s[0] = s[0].add(p.opt.arc[r][0]),
        Step::SboxFull => (0..t).for_each(|i| s[i] = sbox(p.sbox, s[i])),
        Step::SboxPartial => s[0] = sbox(p.sbox, s[0]),
        Step::Mds => *s = linalg::mat_vec(&p.mds, s),
        Step::MatI => *s = linalg::mat_vec(&p.opt.m_i, s),
        Step::Sparse(k) => {
            let s0 = s[0];
            let mut n0 = p.opt.m_00.mul(s0);
            for i in 1..t {
                n0 = n0.add(p.opt.w_hat_coll[k][i - 1].mul(s[i]));
            }
            for i in 1..t {
                s[i] = s[i].add(p.opt.v_coll[k][i - 1].mul(s0));
            }
            s[0] = n0;
        }
    }
}

pub fn run<F: Field>(p: &Params<F>, steps: &[Step], input: &[F]) -> Vec<F> {
    let mut s = input.to_vec();
    for &st in steps {
        apply(p, st, &mut s);
    }
    s
}

/// Everything needed to undo steps: inverse matrices and the S-box root exponent.
pub struct Inv<F> {
    pub mds: Mat<F>,
    pub m_i: Mat<F>,
    pub sparse: Vec<Mat<F>>,
    pub root: Vec<u64>,
}

impl<F: Field> Inv<F> {
    /// None when the parameter set is not invertible.
    pub fn new(p: &Params<F>) -> Option<Inv<F>> {
        let root = match p.sbox {
            Sbox::Pow(e) => root_exponent(e, F::order_minus_one())?.to_vec(),
            Sbox::Inv => {
                // x^(p-2), which maps 0 to 0
                let mut e = F::order_minus_one();
                if e[0] == 0 {
                    return None;
                }
                e[0] -= 1;
                e.to_vec()
            }
        };
        let mut sparse = vec![];
        for k in 0..p.r_p {
            let mut m = linalg::identity(p.t);
            m[0][0] = p.opt.m_00;
            for i in 1..p.t {
                m[0][i] = p.opt.w_hat_coll[k][i - 1];
                m[i][0] = p.opt.v_coll[k][i - 1];
            }
            sparse.push(linalg::inverse(&m)?);
        }
        Some(Inv {
            mds: linalg::inverse(&p.mds)?,
            m_i: linalg::inverse(&p.opt.m_i)?,
            sparse,
            root,
        })
    }
    pub fn undo(&self, p: &Params<F>, st: Step, s: &mut Vec<F>) {
        let t = p.t;
        match st {
            Step::Arc(r) => (0..t).for_each(|i| s[i] = s[i].sub(p.arc[r][i])),
            Step::ArcOpt(r) => (0..t).for_each(|i| s[i] = s[i].sub(p.opt.arc[r][i])),
            Step::ArcFirst(r) => s[0] = s[0].sub(p.opt.arc[r][0]),
            Step::SboxFull => (0..t).for_each(|i| s[i] = s[i].pow_limbs(&self.root)),
            Step::SboxPartial => s[0] = s[0].pow_limbs(&self.root),
            Step::Mds => *s = linalg::mat_vec(&self.mds, s),
            Step::MatI => *s = linalg::mat_vec(&self.m_i, s),
            Step::Sparse(k) => *s = linalg::mat_vec(&self.sparse[k], s),
        }
    }
    /// The input that makes the machine be in `state` just before step number `at`.
    pub fn input_for(&self, p: &Params<F>, steps: &[Step], at: usize, state: &[F]) -> Vec<F> {
        let mut s = state.to_vec();
        for &st in steps[..at].iter().rev() {
            self.undo(p, st, &mut s);
        }
        s
    }
}

/// d with e*d = 1 mod (order-1), for small e: search k with (k*(p-1)+1) divisible by e.
pub fn root_exponent(e: u64, pm1: [u64; 4]) -> Option<[u64; 4]> {
    if e == 0 {
        return None;
    }
    for k in 0..e {
        // n = k*pm1 + 1 (fits in 5 limbs)
        let mut n = [0u64; 5];
        let mut c = 1u128;
        for i in 0..4 {
            c += (k as u128) * (pm1[i] as u128);
            n[i] = c as u64;
            c >>= 64;
        }
        n[4] = c as u64;
        // n / e
        let mut rem = 0u128;
        let mut q = [0u64; 5];
        for i in (0..5).rev() {
            let cur = (rem << 64) | n[i] as u128;
            q[i] = (cur / e as u128) as u64;
            rem = cur % e as u128;
        }
        if rem == 0 {
            assert_eq!(q[4], 0);
            return Some([q[0], q[1], q[2], q[3]]);
        }
    }
    None
}

pub const MERLIN_LABEL: &[u8] = b"round-constants";

/// The documented transcript: constants for (t, M, p, r_F, r_P, alpha).
pub fn transcript_constants(
    n: usize,
    t: usize,
    m: usize,
    p_bytes: &[u8],
    modulus_bits: usize,
    r_f: usize,
    r_p: usize,
    alpha_bytes: [u8; 4],
) -> Vec<Vec<u8>> {
    let mut tr = merlin::Transcript::new(MERLIN_LABEL);
    tr.append_message(b"dom-sep", b"poseidon-paramgen");
    tr.append_message(b"t", &(t as u64).to_le_bytes());
    tr.append_message(b"M", &(m as u64).to_le_bytes());
    tr.append_message(b"p", p_bytes);
    tr.append_message(b"r_F", &[r_f as u8]);
    tr.append_message(b"r_P", &[r_p as u8]);
    tr.append_message(b"alpha", &alpha_bytes);
    (0..n)
        .map(|_| {
            let mut d = vec![0u8; (modulus_bits + 135) / 8];
            tr.challenge_bytes(b"round-constant", &mut d);
            d
        })
        .collect()
}

pub fn cauchy<F: Field>(t: usize) -> Mat<F> {
    (0..t as u64)
        .map(|i| (0..t as u64).map(|j| F::from_u64(i + t as u64 + j).inv().unwrap()).collect())
        .collect()
}

/// The documented parameter set for width t = rate + 1.
pub fn shipped(t: usize) -> Params<Fe> {
    let (r_f, r_p) = (8, 31);
    let mut qb = vec![];
    for l in Q {
        qb.extend(l.to_le_bytes());
    }
    let flat: Vec<Fe> =
        transcript_constants((r_f + r_p) * t, t, 128, &qb, 253, r_f, r_p, 17u32.to_le_bytes())
            .iter()
            .map(|b| Fe::from_le_bytes_mod(b))
            .collect();
    let arc: Mat<Fe> = flat.chunks(t).map(|c| c.to_vec()).collect();
    let mds = cauchy(t);
    let opt = derive_opt(&mds, &arc, r_f, r_p).expect("Cauchy matrices decompose");
    Params { t, m: 128, r_f, r_p, sbox: Sbox::Pow(17), mds, arc, opt }
}

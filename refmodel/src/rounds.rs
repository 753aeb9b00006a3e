//! Round-number bounds of the Poseidon paper (Sections 5.4, 5.5, C.2.2) and of eprint 2023/537 for
//! Poseidon2, decided with exact integer arithmetic instead of floating point.
use crate::poseidon::Sbox;
use num_bigint::BigUint;

fn pow(b: u64, e: usize) -> BigUint {
    BigUint::from(b).pow(e as u32)
}
/// Smallest n with base^(k n) >= x.
fn ceil_log(base: u64, k: usize, x: &BigUint) -> usize {
    let step = pow(base, k);
    let mut acc = BigUint::from(1u32);
    let mut n = 0;
    while &acc < x {
        acc *= &step;
        n += 1;
    }
    n
}
/// Largest n with base^(k n) <= x (x >= 1).
fn floor_log(base: u64, k: usize, x: &BigUint) -> usize {
    let step = pow(base, k);
    let mut acc = step.clone();
    let mut n = 0;
    while &acc <= x {
        acc *= &step;
        n += 1;
    }
    n
}

/// All bounds for one (M, t, p, S-box), so that a candidate (r_F, r_P) is decided by comparisons.
pub struct Bounds {
    pub t: usize,
    pub m: usize,
    pub sbox: Sbox,
    pub stat: usize,
    pub interp: usize,
    pub grobner: usize,
}

impl Bounds {
    pub fn new(m: usize, t: usize, p: &BigUint, sbox: Sbox) -> Bounds {
        let two_m = pow(2, m);
        // floor(log2 p) for a modulus that is not a power of two
        let flog = p.bits() as usize - 1;
        // M <= (floor(log2 p) - C) (t + 1), C = log2(alpha - 1) or 2
        let stat_ok = match sbox {
            Sbox::Inv => flog >= 2 && m <= (flog - 2) * (t + 1),
            Sbox::Pow(a) => {
                let e = flog * (t + 1);
                e >= m && pow(a - 1, t + 1) <= pow(2, e - m)
            }
        };
        let log_t_up = |b: u64| ceil_log(b, 1, &BigUint::from(t as u64));
        let (interp, grobner) = match sbox {
            Sbox::Pow(a) => {
                let i = ceil_log(a, 1, &two_m).min(ceil_log(a, 1, p)) + log_t_up(a);
                let g1 = floor_log(a, 3, &two_m).min(floor_log(a, 2, p));
                let g2 = t - 1 + floor_log(a, t + 1, &two_m).min(floor_log(a, 2, p));
                (i, g1.max(g2))
            }
            Sbox::Inv => {
                let half = m.div_ceil(2).min(ceil_log(2, 2, p));
                let lt = log_t_up(2);
                let g2 = t - 1 + lt + m.div_ceil(t + 1).min(ceil_log(2, 2, p));
                (lt + half, (half + lt).max(g2))
            }
        };
        Bounds { t, m, sbox, stat: if stat_ok { 6 } else { 10 }, interp, grobner }
    }
    pub fn secure_v1(&self, rf: usize, rp: usize) -> bool {
        if rf < self.stat {
            return false;
        }
        let have = match self.sbox {
            Sbox::Pow(_) => rf + rp,
            // floor(r_F log2 t) + r_P
            Sbox::Inv => pow(self.t as u64, rf).bits() as usize - 1 + rp,
        };
        have > self.interp && have > self.grobner
    }
    /// Poseidon2 only has positive exponents.
    pub fn secure_v2(&self, rf: usize, rp: usize) -> bool {
        let Sbox::Pow(a) = self.sbox else { panic!("Poseidon2 needs a positive exponent") };
        if !self.secure_v1(rf, rp) {
            return false;
        }
        let r = self.t / 3;
        let low = r * (rf / 2) + rp + a as usize;
        let up = (rf - 1) * self.t + rp + r + low;
        // the attack is possible if twice the bit size of C(up, low) is below M
        let k = low.min(up - low);
        let mut c = BigUint::from(1u32);
        for i in 0..k {
            c = c * BigUint::from((up - i) as u64) / BigUint::from((i + 1) as u64);
            // binomials grow up to the middle, so this decides
            if 2 * c.bits() as usize >= self.m {
                return true;
            }
        }
        2 * c.bits() as usize >= self.m
    }
    pub fn margin(rf: usize, rp: usize) -> (usize, usize) {
        (rf + 2, (43 * rp).div_ceil(40))
    }
    /// Least S-box count, ties to fewer full rounds, over the documented search range. The full rounds are
    /// split evenly around the partial ones, so their number is even.
    pub fn select(&self, v2: bool) -> Option<(usize, usize)> {
        let mut best: Option<(usize, usize, usize)> = None;
        for rf in (4..100).step_by(2) {
            for rp in 1..400 {
                let (f, p) = Self::margin(rf, rp);
                let cost = self.t * f + p;
                if best.map(|(c, bf, _)| (cost, f) >= (c, bf)).unwrap_or(false) {
                    continue;
                }
                if if v2 { self.secure_v2(rf, rp) } else { self.secure_v1(rf, rp) } {
                    best = Some((cost, f, p));
                }
            }
        }
        best.map(|(_, f, p)| (f, p))
    }
}

pub fn q() -> BigUint {
    crate::field::Q_DEC.parse().unwrap()
}

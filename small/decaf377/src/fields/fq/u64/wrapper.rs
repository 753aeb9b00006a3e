// Stand-in for the base field: integers modulo a small prime that the model checker chooses at run time,
// so that complete state spaces of the code built on it can be enumerated. Everything else of this
// crate is decaf377 0.10.1 as published.
use core::sync::atomic::{AtomicU64, Ordering};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

use super::super::{N_64, N_8};

const N: usize = N_64;

static P: AtomicU64 = AtomicU64::new(7);
#[inline(always)]
fn p() -> u64 {
    P.load(Ordering::Relaxed)
}

/// Any representative; operations return the least one.
#[derive(Copy, Clone)]
pub struct Fq(u64);

impl PartialEq for Fq {
    fn eq(&self, other: &Self) -> bool {
        match (self.is_sentinel(), other.is_sentinel()) {
            (true, true) => true,
            (true, false) => false,
            (false, true) => false,
            (false, false) => self.v() == other.v(),
        }
    }
}

impl Eq for Fq {}

impl zeroize::Zeroize for Fq {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}

impl Fq {
    /// Choose the modulus (a prime below 2^31). Not to be called while other threads compute.
    pub fn mc_set_modulus(q: u64) {
        P.store(q, Ordering::SeqCst)
    }
    #[inline(always)]
    pub fn mc(x: u64) -> Fq {
        Fq(x)
    }
    #[inline(always)]
    pub fn v(&self) -> u64 {
        let q = p();
        if self.0 < q {
            self.0
        } else {
            self.0 % q
        }
    }

    pub(crate) fn from_le_limbs(limbs: [u64; N_64]) -> Fq {
        let q = p() as u128;
        let mut r = 0u128;
        for l in limbs.iter().rev() {
            r = ((r << 64) + *l as u128) % q;
        }
        Fq(r as u64)
    }

    pub(crate) fn from_raw_bytes(bytes: &[u8; N_8]) -> Fq {
        let mut l = [0u64; N_64];
        for i in 0..N_64 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&bytes[8 * i..8 * i + 8]);
            l[i] = u64::from_le_bytes(b);
        }
        Self::from_le_limbs(l)
    }

    pub(crate) fn to_le_limbs(&self) -> [u64; N_64] {
        [self.v(), 0, 0, 0]
    }

    pub fn to_bytes_le(&self) -> [u8; N_8] {
        let mut bytes = [0u8; 32];
        bytes[..8].copy_from_slice(&self.v().to_le_bytes());
        bytes
    }

    /// The lowest limb, taken modulo the small prime.
    pub const fn from_montgomery_limbs(limbs: [u64; N]) -> Fq {
        Self(limbs[0])
    }

    pub const ZERO: Self = Self(0);
    pub const ONE: Self = Self(1);

    pub const SENTINEL: Self = Self(u64::MAX);

    #[inline(always)]
    fn is_sentinel(&self) -> bool {
        self.0 == u64::MAX
    }

    pub fn square(&self) -> Fq {
        self.mul(self)
    }

    pub fn inverse(&self) -> Option<Fq> {
        let q = p();
        let x = self.v();
        if x == 0 {
            return None;
        }
        // x^(q-2)
        let (mut r, mut b, mut e) = (1u64, x, q - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % q;
            }
            b = b * b % q;
            e >>= 1;
        }
        Some(Fq(r))
    }

    #[inline(always)]
    pub fn add(self, other: &Fq) -> Fq {
        let q = p();
        let s = self.v() + other.v();
        Fq(if s >= q { s - q } else { s })
    }

    #[inline(always)]
    pub fn sub(self, other: &Fq) -> Fq {
        let q = p();
        let (a, b) = (self.v(), other.v());
        Fq(if a >= b { a - b } else { a + q - b })
    }

    #[inline(always)]
    pub fn mul(self, other: &Fq) -> Fq {
        let q = p() as u32;
        let x = self.v() * other.v();
        Fq(if x < 1 << 32 { (x as u32 % q) as u64 } else { x % q as u64 })
    }

    pub fn neg(self) -> Fq {
        Fq(0).sub(&self)
    }
}

impl ConditionallySelectable for Fq {
    fn conditional_select(a: &Self, b: &Self, choice: subtle::Choice) -> Self {
        Self(u64::conditional_select(&a.v(), &b.v(), choice))
    }
}

impl ConstantTimeEq for Fq {
    fn ct_eq(&self, other: &Fq) -> Choice {
        Choice::from((self.v() == other.v()) as u8)
    }
}

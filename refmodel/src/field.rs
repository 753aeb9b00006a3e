use core::fmt::Debug;
use core::hash::Hash;

/// A prime field.
pub trait Field: Copy + Eq + Hash + Debug + Send + Sync + 'static {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn neg(self) -> Self {
        Self::zero().sub(self)
    }
    fn from_u64(x: u64) -> Self;
    /// x^e for an arbitrary little-endian multi-limb exponent.
    fn pow_limbs(self, e: &[u64]) -> Self {
        let mut r = Self::one();
        for limb in e.iter().rev() {
            for i in (0..64).rev() {
                r = r.mul(r);
                if (limb >> i) & 1 == 1 {
                    r = r.mul(self);
                }
            }
        }
        r
    }
    fn pow(self, e: u64) -> Self {
        let mut r = Self::one();
        let mut b = self;
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(b);
            }
            b = b.mul(b);
            e >>= 1;
        }
        r
    }
    /// p - 1 as little-endian limbs.
    fn order_minus_one() -> [u64; 4];
    fn inv(self) -> Option<Self> {
        if self == Self::zero() {
            return None;
        }
        // x^(p-2)
        let mut e = Self::order_minus_one();
        let mut borrow = 1u64;
        for l in e.iter_mut() {
            let (v, b) = l.overflowing_sub(borrow);
            *l = v;
            borrow = b as u64;
            if borrow == 0 {
                break;
            }
        }
        Some(self.pow_limbs(&e))
    }
    fn is_zero(self) -> bool {
        self == Self::zero()
    }
}

/// q = 8444461749428370424248824938781546531375899335154063827935233455917409239041, the BLS12-377
/// scalar field order, little-endian limbs.
pub const Q: [u64; 4] = [
    0x0a11800000000001,
    0x59aa76fed0000001,
    0x60b44d1e5c37b001,
    0x12ab655e9a2ca556,
];
pub const Q_DEC: &str =
    "8444461749428370424248824938781546531375899335154063827935233455917409239041";

const fn inv64(n: u64) -> u64 {
    // -n^{-1} mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 63 {
        x = x.wrapping_mul(x).wrapping_mul(n);
        i += 1;
    }
    x.wrapping_neg()
}
const NINV: u64 = inv64(Q[0]);

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
const fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let mut r = [0u64; 4];
    let mut br = 0u64;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(br as u128);
        r[i] = t as u64;
        br = ((t >> 64) as u64) & 1;
        i += 1;
    }
    (r, br)
}
const fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    let mut i = 0;
    while i < 4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
        i += 1;
    }
    (r, c as u64)
}
const fn dbl_mod(a: &[u64; 4]) -> [u64; 4] {
    // q < 2^253 so no carry
    let (r, _) = add_raw(a, a);
    if geq(&r, &Q) {
        sub_raw(&r, &Q).0
    } else {
        r
    }
}
const fn pow2_mod(n: usize) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = dbl_mod(&r);
        i += 1;
    }
    r
}
const R1: [u64; 4] = pow2_mod(256);
const R2: [u64; 4] = pow2_mod(512);

/// An element of F_q in Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fe(pub [u64; 4]);

fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += t[j] as u128 + (a[i] as u128) * (b[j] as u128);
            t[j] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[4] = c as u64;
        t[5] = (c >> 64) as u64;
        let m = t[0].wrapping_mul(NINV);
        let mut c = (t[0] as u128 + (m as u128) * (Q[0] as u128)) >> 64;
        for j in 1..4 {
            c += t[j] as u128 + (m as u128) * (Q[j] as u128);
            t[j - 1] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[3] = c as u64;
        t[4] = t[5] + (c >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &Q) {
        sub_raw(&r, &Q).0
    } else {
        r
    }
}

impl Fe {
    /// From a canonical integer below q.
    pub fn from_canonical(l: [u64; 4]) -> Fe {
        assert!(!geq(&l, &Q));
        Fe(mont_mul(&l, &R2))
    }
    /// From any 256-bit integer, reduced.
    pub fn from_limbs_mod(mut l: [u64; 4]) -> Fe {
        while geq(&l, &Q) {
            l = sub_raw(&l, &Q).0;
        }
        Fe::from_canonical(l)
    }
    /// A square root, if there is one (Tonelli-Shanks, the two-adicity of q - 1 is 47).
    pub fn sqrt(self) -> Option<Fe> {
        if self == Fe::zero() {
            return Some(self);
        }
        let mut h = Q;
        h[0] -= 1;
        let shr = |mut l: [u64; 4]| {
            for i in 0..4 {
                l[i] = (l[i] >> 1) | if i < 3 { l[i + 1] << 63 } else { 0 };
            }
            l
        };
        let half = shr(h);
        if self.pow_limbs(&half) != Fe::one() {
            return None;
        }
        let (mut odd, mut s) = (h, 0u32);
        while odd[0] & 1 == 0 {
            odd = shr(odd);
            s += 1;
        }
        let mut z = Fe::from_u64(2);
        while z.pow_limbs(&half) == Fe::one() {
            z = z.add(Fe::one());
        }
        let (mut c, mut t) = (z.pow_limbs(&odd), self.pow_limbs(&odd));
        let mut e = shr(odd); // (odd - 1) / 2
        let mut carry = true; // + 1
        for l in e.iter_mut() {
            if carry {
                let (v, o) = l.overflowing_add(1);
                *l = v;
                carry = o;
            }
        }
        let mut r = self.pow_limbs(&e);
        let mut m = s;
        while t != Fe::one() {
            let (mut i, mut x) = (0, t);
            while x != Fe::one() {
                x = x.mul(x);
                i += 1;
            }
            let mut b = c;
            for _ in 0..m - i - 1 {
                b = b.mul(b);
            }
            m = i;
            c = b.mul(b);
            t = t.mul(c);
            r = r.mul(b);
        }
        assert_eq!(r.mul(r), self);
        Some(r)
    }
    pub fn limbs(self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn to_bytes(self) -> [u8; 32] {
        let l = self.limbs();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
        }
        o
    }
    /// Little-endian bytes of any length, reduced mod q.
    pub fn from_le_bytes_mod(b: &[u8]) -> Fe {
        let mut r = Fe::zero();
        let k = Fe::from_u64(256);
        for x in b.iter().rev() {
            r = r.mul(k).add(Fe::from_u64(*x as u64));
        }
        r
    }
    /// The element whose Montgomery representation (x * 2^256 mod q) is the given integer.
    pub fn from_mont_limbs(l: [u64; 4]) -> Fe {
        assert!(!geq(&l, &Q));
        Fe(l)
    }
    pub fn hex(self) -> String {
        let l = self.limbs();
        let s = format!("{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]);
        let t = s.trim_start_matches('0');
        format!("0x{}", if t.is_empty() { "0" } else { t })
    }
    pub fn from_hex(s: &str) -> Fe {
        let s = s.trim_start_matches("0x");
        let mut r = Fe::zero();
        for c in s.chars() {
            r = r
                .mul(Fe::from_u64(16))
                .add(Fe::from_u64(c.to_digit(16).expect("hex digit") as u64));
        }
        r
    }
    pub fn from_dec(s: &str) -> Fe {
        let mut r = Fe::zero();
        for c in s.chars() {
            r = r
                .mul(Fe::from_u64(10))
                .add(Fe::from_u64(c.to_digit(10).expect("digit") as u64));
        }
        r
    }
}

impl core::fmt::Debug for Fe {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.hex())
    }
}

impl Field for Fe {
    fn zero() -> Self {
        Fe([0; 4])
    }
    fn one() -> Self {
        Fe(R1)
    }
    fn add(self, o: Self) -> Self {
        let (r, _) = add_raw(&self.0, &o.0);
        Fe(if geq(&r, &Q) { sub_raw(&r, &Q).0 } else { r })
    }
    fn sub(self, o: Self) -> Self {
        let (r, b) = sub_raw(&self.0, &o.0);
        Fe(if b == 1 { add_raw(&r, &Q).0 } else { r })
    }
    fn mul(self, o: Self) -> Self {
        Fe(mont_mul(&self.0, &o.0))
    }
    fn from_u64(x: u64) -> Self {
        Fe(mont_mul(&[x, 0, 0, 0], &R2))
    }
    fn order_minus_one() -> [u64; 4] {
        [Q[0] - 1, Q[1], Q[2], Q[3]]
    }
}

/// Sanity of the reference arithmetic itself, run at the start of every check: the modulus constant
/// against its documented decimal form, Montgomery products against schoolbook double-and-add.
pub fn self_check() {
    for i in 1..20u64 {
        let x = Fe::from_u64(i);
        assert!(x.mul(x).sqrt().is_some());
    }
    // decimal modulus reduces to zero, modulus - 1 to -1
    assert_eq!(Fe::from_dec(Q_DEC), Fe::zero());
    let mut q1 = Q_DEC.to_string();
    q1.pop();
    q1.push('0');
    assert_eq!(Fe::from_dec(&q1), Fe::one().neg());
    let vals = [
        [0u64, 0, 0, 0],
        [1, 0, 0, 0],
        [u64::MAX, u64::MAX, u64::MAX, 0x12ab655e9a2ca555],
        [Q[0] - 1, Q[1], Q[2], Q[3]],
        [0x123456789abcdef0, 0xfedcba9876543210, 0x0f1e2d3c4b5a6978, 0x0123456789abcdef],
    ];
    for a in vals {
        let fa = Fe::from_canonical(a);
        assert_eq!(fa.limbs(), a);
        for b in vals {
            // double-and-add
            let mut acc = [0u64; 4];
            for i in (0..256).rev() {
                acc = dbl_mod(&acc);
                if (b[i / 64] >> (i % 64)) & 1 == 1 {
                    let (s, _) = add_raw(&acc, &a);
                    acc = if geq(&s, &Q) { sub_raw(&s, &Q).0 } else { s };
                }
            }
            assert_eq!(fa.mul(Fe::from_canonical(b)).limbs(), acc);
        }
        if a != [0; 4] {
            assert_eq!(fa.mul(fa.inv().unwrap()), Fe::one());
        }
    }
}

/// A small prime field whose order is fixed at compile time.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Sp<const P: u64>(pub u64);
impl<const P: u64> core::fmt::Debug for Sp<P> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Field for Sp<P> {
    fn zero() -> Self {
        Sp(0)
    }
    fn one() -> Self {
        Sp(1 % P)
    }
    fn add(self, o: Self) -> Self {
        Sp((self.0 + o.0) % P)
    }
    fn sub(self, o: Self) -> Self {
        Sp((self.0 + P - o.0) % P)
    }
    fn mul(self, o: Self) -> Self {
        Sp(self.0 * o.0 % P)
    }
    fn from_u64(x: u64) -> Self {
        Sp(x % P)
    }
    fn order_minus_one() -> [u64; 4] {
        [P - 1, 0, 0, 0]
    }
}

/// A small prime field whose order is chosen at run time, for all threads.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Dy(pub u64);
static DY: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(7);
impl Dy {
    pub fn set_order(p: u64) {
        DY.store(p, core::sync::atomic::Ordering::SeqCst)
    }
    #[inline(always)]
    pub fn order() -> u64 {
        DY.load(core::sync::atomic::Ordering::Relaxed)
    }
}
impl core::fmt::Debug for Dy {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Field for Dy {
    fn zero() -> Self {
        Dy(0)
    }
    fn one() -> Self {
        Dy(1)
    }
    fn add(self, o: Self) -> Self {
        Dy((self.0 + o.0) % Self::order())
    }
    fn sub(self, o: Self) -> Self {
        let p = Self::order();
        Dy((self.0 + p - o.0) % p)
    }
    fn mul(self, o: Self) -> Self {
        Dy(self.0 * o.0 % Self::order())
    }
    fn from_u64(x: u64) -> Self {
        Dy(x % Self::order())
    }
    fn order_minus_one() -> [u64; 4] {
        [Self::order() - 1, 0, 0, 0]
    }
    fn inv(self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(self.pow(Self::order() - 2))
        }
    }
}

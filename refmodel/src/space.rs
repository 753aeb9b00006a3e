//! Finite spaces that the checks enumerate completely.
use crate::field::{Fe, Field};
use crate::poseidon::{apply, optimized_steps, textbook_steps, Inv, Params, Step};
use std::collections::HashSet;

pub fn p2(k: usize) -> Fe {
    Fe::from_u64(2).pow(k as u64)
}
fn dedup(v: Vec<Fe>) -> Vec<Fe> {
    let mut s = HashSet::new();
    v.into_iter().filter(|x| s.insert(*x)).collect()
}

/// Simplest-first values that code is likely to single out.
pub fn core() -> Vec<Fe> {
    let one = Fe::one();
    let half = Fe::from_u64(2).inv().unwrap();
    // element of order 4 and 8: 2-adicity of q-1 is 47; 22 generates the multiplicative group
    // (any non-residue does for this purpose)
    let mut e = Fe::order_minus_one();
    for _ in 0..3 {
        // e >>= 1
        for i in 0..4 {
            e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 };
        }
    }
    let w8 = Fe::from_u64(11).pow_limbs(&e);
    dedup(vec![
        Fe::zero(),
        one,
        one.neg(),
        Fe::from_u64(2),
        Fe::from_u64(2).neg(),
        Fe::from_u64(3),
        half,
        half.neg(),
        Fe::from_u64(17),
        p2(64),
        p2(64).sub(one),
        p2(128),
        p2(192),
        p2(252),
        Fe::from_u64(255),
        Fe::from_u64(256),
        Fe::from_u64(u32::MAX as u64),
        p2(32),
        Fe::from_u64(7),
        Fe::from_u64(8),
        w8,
        w8.mul(w8),
        Fe::from_u64(10),
        Fe::from_u64(42),
        Fe::from_u64(100),
        Fe::from_u64(5),
        Fe::from_mont_limbs([1, 0, 0, 0]),
        Fe::from_u64(1000),
        Fe::from_u64(4),
        Fe::from_u64(6),
        Fe::from_u64(9),
        Fe::from_u64(16),
    ].into_iter().chain(roots()).collect())
}

/// Exponents of the S-box for the sweeps: all small ones, and all 32-bit ones with simple patterns of
/// set bits (one or two bits, two bits less one, runs of bits, three bits at the lower end, multiples of
/// small primes).
pub fn exponents(small: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=small).collect();
    for k in 0..32 {
        for j in 0..=k {
            let (a, b) = (1u64 << k, 1u64 << j);
            v.extend([a + b, a + b - 1, a - b, a + b + 1, (a * 2) - b, u32::MAX as u64 - a, (u32::MAX as u64 + (j == k) as u64 - a).wrapping_sub(b)]);
        }
        for m in [3, 5, 7, 17, 100, 257] {
            v.extend([m << k, (m << k) + 1]);
        }
    }
    v.push(u32::MAX as u64);
    v.retain(|e| *e <= u32::MAX as u64);
    let mut s = HashSet::new();
    v.retain(|e| s.insert(*e));
    v
}

/// Elements of small multiplicative order. (17 does not divide q - 1.)
pub fn roots() -> Vec<Fe> {
    let m = Fe::order_minus_one();
    [3u64, 5, 15, 7, 13, 16, 32, 6]
        .iter()
        .map(|d| {
            // (q - 1) / d
            let (mut e, mut r) = ([0u64; 4], 0u128);
            for i in (0..4).rev() {
                let x = r << 64 | m[i] as u128;
                e[i] = (x / *d as u128) as u64;
                r = x % *d as u128;
            }
            assert_eq!(r, 0);
            let w = Fe::from_u64(11).pow_limbs(&e);
            assert_eq!(w.pow(*d), Fe::one());
            w
        })
        .filter(|w| *w != Fe::one())
        .collect()
}

/// Two words related by a simple expression, the others unrelated.
pub fn related(t: usize, xs: &[Fe]) -> Vec<Vec<Fe>> {
    let bg = backgrounds(t).pop().unwrap();
    let mut out = vec![];
    for x in xs {
        let (x, one) = (*x, Fe::one());
        let f = [
            x.add(one),
            x.neg(),
            x.add(x),
            x.mul(x),
            x.inv().unwrap_or(one),
            x.pow(17),
            one.sub(x),
            x.mul(x).mul(x),
            x.add(x).add(x),
            x.mul(x).neg(),
        ];
        for i in 0..t {
            for j in 0..t {
                if i != j {
                    for y in f {
                        let mut v = bg.clone();
                        v[i] = x;
                        v[j] = y;
                        out.push(v);
                    }
                }
            }
        }
        // a third word is determined by two others
        for i in 0..t {
            for j in i + 1..t {
                for k in j + 1..t {
                    let y = p2(77).add(x);
                    for (a, b, c) in [(x, y, x.add(y)), (x, y, x.mul(y)), (x, y, x.add(y).neg()), (x.add(y), x, y), (x, x.add(y), y)] {
                        let mut v = bg.clone();
                        v[i] = a;
                        v[j] = b;
                        v[k] = c;
                        out.push(v);
                    }
                }
            }
        }
    }
    out
}

/// A wide alphabet: small integers, powers of two and neighbours, their negations, repeated-byte
/// and single-byte patterns, limb patterns in canonical and Montgomery form.
pub fn wide(small: u64, bytes: bool) -> Vec<Fe> {
    let one = Fe::one();
    let mut v = core();
    for i in 0..small {
        v.push(Fe::from_u64(i));
        v.push(Fe::from_u64(i).neg());
    }
    for k in 0..253 {
        for d in [Fe::zero(), one, one.neg()] {
            v.push(p2(k).add(d));
            v.push(p2(k).add(d).neg());
        }
    }
    for c in 0..=255u8 {
        for n in [4usize, 8, 16, 31, 32] {
            v.push(Fe::from_le_bytes_mod(&vec![c; n]));
        }
    }
    if bytes {
        for pos in 0..32 {
            for c in 1..=255u8 {
                let mut b = [0u8; 32];
                b[pos] = c;
                v.push(Fe::from_le_bytes_mod(&b));
            }
        }
    }
    for mask in 0..16u32 {
        for word in [1u64, u64::MAX, 0x8000_0000_0000_0000, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa] {
            let l: [u64; 4] = core::array::from_fn(|i| {
                if mask >> i & 1 == 1 {
                    if i == 3 {
                        word & 0x0fff_ffff_ffff_ffff
                    } else {
                        word
                    }
                } else {
                    0
                }
            });
            v.push(Fe::from_limbs_mod(l));
            v.push(Fe::from_mont_limbs(l));
        }
    }
    // decimal-looking and factorial-looking constants
    let mut x = one;
    for i in 1..40 {
        x = x.mul(Fe::from_u64(i));
        v.push(x);
        v.push(Fe::from_u64(10).pow(i));
        v.push(Fe::from_u64(3).pow(i));
        v.push(Fe::from_u64(i).inv().unwrap());
    }
    dedup(v)
}

/// A shorter wide alphabet for expensive executions: small integers, powers of two, limb patterns.
pub fn narrow() -> Vec<Fe> {
    let mut v = core();
    for i in 0..40 {
        v.push(Fe::from_u64(i));
        v.push(Fe::from_u64(i).neg());
    }
    for k in 0..253 {
        v.push(p2(k));
        if k % 8 == 0 {
            v.push(p2(k).sub(Fe::one()));
        }
    }
    for c in [1u8, 2, 0x20, 0x30, 0x41, 0x7f, 0x80, 0xaa, 0xff] {
        v.push(Fe::from_le_bytes_mod(&[c; 32]));
    }
    dedup(v)
}

/// Integer and string literals that occur in the repository's hand-written sources, as field elements: a value
/// that code singles out is normally written down somewhere in it.
pub fn dictionary(repo: &str) -> Vec<Fe> {
    let mut out = vec![];
    let mut files = vec![];
    fn walk(d: &std::path::Path, files: &mut Vec<std::path::PathBuf>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            if p.is_dir() {
                if !["target", ".git", "vendor", "tests", "benches"].contains(&n.as_str()) {
                    walk(&p, files);
                }
            } else if n.ends_with(".rs") {
                files.push(p);
            }
        }
    }
    for c in ["poseidon377", "poseidon-permutation", "poseidon-parameters"] {
        walk(&std::path::Path::new(repo).join(c).join("src"), &mut files);
    }
    files.sort();
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let generated = f.to_string_lossy().contains("/params/rate_");
        let b = s.as_bytes();
        let mut i = 0;
        let mut run: Vec<u128> = vec![];
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let tok: String = s[i..j].replace('_', "");
                let tok = tok.trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u128")
                    .trim_end_matches("usize").trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("i32").trim_end_matches("i64");
                let val: Option<Fe> = if let Some(h) = tok.strip_prefix("0x") {
                    if h.chars().all(|c| c.is_ascii_hexdigit()) && h.len() <= 64 {
                        Some(Fe::from_hex(h))
                    } else {
                        None
                    }
                } else if let Some(h) = tok.strip_prefix("0b") {
                    u128::from_str_radix(h, 2).ok().map(|x| Fe::from_le_bytes_mod(&x.to_le_bytes()))
                } else if tok.chars().all(|c| c.is_ascii_digit()) && tok.len() < 80 {
                    Some(Fe::from_dec(tok))
                } else {
                    None
                };
                if let (Some(v), false) = (val, generated) {
                    out.push(v);
                }
                if let Ok(x) = if let Some(h) = tok.strip_prefix("0x") { u128::from_str_radix(h, 16) } else { tok.parse::<u128>() } {
                    run.push(x);
                }
                i = j;
                continue;
            }
            if !generated && b[i] == b'"' {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' && b[j] != b'\n' {
                    if b[j] == b'\\' {
                        j += 1;
                    }
                    j += 1;
                }
                if j < b.len() && b[j] == b'"' && j - i - 1 <= 80 {
                    let body = &b[i + 1..j];
                    out.push(Fe::from_le_bytes_mod(body));
                    let mut r = body.to_vec();
                    r.reverse();
                    out.push(Fe::from_le_bytes_mod(&r));
                    let st = &s[i + 1..j];
                    if !st.is_empty() && st.chars().all(|c| c.is_ascii_digit()) {
                        out.push(Fe::from_dec(st));
                    }
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        }
        if !generated {
            // groups of 4 u64 literals as limbs, runs of bytes as bytes
            for w in run.windows(4) {
                if w.iter().all(|x| *x <= u64::MAX as u128) && w.iter().any(|x| *x > 255) {
                    let l = [w[0] as u64, w[1] as u64, w[2] as u64, w[3] as u64];
                    out.push(Fe::from_limbs_mod(l));
                    let lm = Fe::from_limbs_mod(l);
                    out.push(Fe::from_mont_limbs(lm.limbs()));
                }
            }
            for w in run.windows(32) {
                if w.iter().all(|x| *x < 256) {
                    let by: Vec<u8> = w.iter().map(|x| *x as u8).collect();
                    out.push(Fe::from_le_bytes_mod(&by));
                }
            }
        }
    }
    let mut all = vec![];
    for v in out {
        all.push(v);
        all.push(v.neg());
        if let Some(i) = v.inv() {
            all.push(i);
        }
    }
    dedup(all)
}

/// Backgrounds for the positions that are not being varied.
pub fn backgrounds(t: usize) -> Vec<Vec<Fe>> {
    vec![
        vec![Fe::zero(); t],
        vec![Fe::one(); t],
        (0..t).map(|i| Fe::from_u64(i as u64 + 1)).collect(),
        (0..t).map(|i| p2(200 + i).add(Fe::from_u64(977 + 13 * i as u64)).neg()).collect(),
    ]
}

/// All restricted growth strings of length t: every pattern of equal and different positions.
pub fn partitions(t: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(t: usize, cur: &mut Vec<usize>, mx: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == t {
            out.push(cur.clone());
            return;
        }
        for k in 0..=mx {
            cur.push(k);
            go(t, cur, mx.max(k + 1), out);
            cur.pop();
        }
    }
    go(t, &mut vec![], 0, &mut out);
    out
}

/// Mixed-radix decoding: the i-th word over an alphabet of size k and length t.
pub fn word(mut i: usize, k: usize, t: usize) -> Vec<usize> {
    (0..t)
        .map(|_| {
            let d = i % k;
            i /= k;
            d
        })
        .collect()
}

/// An input space for width t, addressed by index so that it can be enumerated in parallel and every
/// index is visited.
pub enum Space {
    /// Full product over an alphabet.
    Product { t: usize, al: Vec<Fe> },
    /// Position x alphabet x background.
    Sweep { t: usize, al: Vec<Fe>, bg: Vec<Vec<Fe>> },
    /// Pair of positions x alphabet^2 x background.
    Pairs { t: usize, al: Vec<Fe>, bg: Vec<Vec<Fe>> },
    /// Equality pattern x injective value map.
    Patterns { pats: Vec<Vec<usize>>, maps: Vec<Vec<Fe>> },
    /// Inputs computed so that the machine passes through a chosen state.
    Steer(Steer),
    List(Vec<Vec<Fe>>),
}

pub struct Steer {
    pub p: Params<Fe>,
    pub inv: Inv<Fe>,
    pub steps: Vec<Step>,
    /// (step index, word, value); word == t means all words
    pub targets: Vec<(usize, usize, Fe)>,
    pub bg: Vec<Vec<Fe>>,
}

impl Space {
    pub fn len(&self) -> usize {
        match self {
            Space::Product { t, al } => al.len().pow(*t as u32),
            Space::Sweep { t, al, bg } => t * al.len() * bg.len(),
            Space::Pairs { t, al, bg } => t * (t - 1) / 2 * al.len() * al.len() * bg.len(),
            Space::Patterns { pats, maps } => pats.len() * maps.len(),
            Space::Steer(s) => s.targets.len() * s.bg.len(),
            Space::List(l) => l.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn name(&self) -> &'static str {
        match self {
            Space::Product { .. } => "product",
            Space::Sweep { .. } => "sweep",
            Space::Pairs { .. } => "pairs",
            Space::Patterns { .. } => "equality patterns",
            Space::Steer(_) => "steered",
            Space::List(_) => "list",
        }
    }
    pub fn get(&self, mut i: usize) -> Vec<Fe> {
        match self {
            Space::Product { t, al } => word(i, al.len(), *t).into_iter().map(|d| al[d]).collect(),
            Space::Sweep { t, al, bg } => {
                let pos = i % t;
                i /= t;
                let b = i % bg.len();
                i /= bg.len();
                let mut v = bg[b].clone();
                v[pos] = al[i];
                v
            }
            Space::Pairs { t, al, bg } => {
                let np = t * (t - 1) / 2;
                let mut k = i % np;
                i /= np;
                let b = i % bg.len();
                i /= bg.len();
                let mut a = 0;
                while k >= t - 1 - a {
                    k -= t - 1 - a;
                    a += 1;
                }
                let c = a + 1 + k;
                let mut v = bg[b].clone();
                v[a] = al[i % al.len()];
                v[c] = al[i / al.len()];
                v
            }
            Space::Patterns { pats, maps } => {
                let m = &maps[i % maps.len()];
                pats[i / maps.len()].iter().map(|k| m[*k]).collect()
            }
            Space::Steer(s) => {
                let (at, w, val) = s.targets[i / s.bg.len()];
                let mut st = s.bg[i % s.bg.len()].clone();
                if w == s.p.t {
                    st.iter_mut().for_each(|x| *x = val);
                } else if w < s.p.t {
                    st[w] = val;
                }
                s.inv.input_for(&s.p, &s.steps, at, &st)
            }
            Space::List(l) => l[i].clone(),
        }
    }
}

/// Steer every word at every step boundary of the given machine to each value.
pub fn steer(p: &Params<Fe>, optimized: bool, vals: &[Fe], nbg: usize) -> Option<Space> {
    let inv = Inv::new(p)?;
    let steps = if optimized { optimized_steps(p.r_f, p.r_p) } else { textbook_steps(p.r_f, p.r_p) };
    let mut targets = vec![];
    for at in 1..=steps.len() {
        for w in 0..=p.t {
            // a whole-state target only makes sense for the all-equal state
            for v in vals {
                targets.push((at, w, *v));
            }
        }
    }
    let bg = backgrounds(p.t).into_iter().rev().take(nbg).collect();
    Some(Space::Steer(Steer { p: p.clone(), inv, steps, targets, bg }))
}

/// Steer to whole-state patterns at every step boundary: two equal words, two zero words, a zero prefix
/// or suffix, an all-zero state except one word.
pub fn steer_patterns(p: &Params<Fe>, optimized: bool) -> Option<Space> {
    let inv = Inv::new(p)?;
    let t = p.t;
    let steps = if optimized { optimized_steps(p.r_f, p.r_p) } else { textbook_steps(p.r_f, p.r_p) };
    let base = backgrounds(t).pop().unwrap();
    let mut bg = vec![];
    for i in 0..t {
        for j in i + 1..t {
            let mut a = base.clone();
            a[j] = a[i];
            bg.push(a);
            let mut a = base.clone();
            a[j] = a[i].neg();
            bg.push(a);
            let mut a = base.clone();
            a[i] = Fe::zero();
            a[j] = Fe::zero();
            bg.push(a);
        }
        let mut a = base.clone();
        a[..i].iter_mut().for_each(|x| *x = Fe::zero());
        bg.push(a);
        let mut a = base.clone();
        a[i..].iter_mut().for_each(|x| *x = Fe::zero());
        bg.push(a);
        let mut a = vec![Fe::zero(); t];
        a[i] = base[i];
        bg.push(a);
    }
    // word index t + 1: leave the background as it is
    let targets = (1..=steps.len()).map(|at| (at, t + 1, Fe::zero())).collect();
    Some(Space::Steer(Steer { p: p.clone(), inv, steps, targets, bg }))
}

/// States visited by the machine on one input (including the initial one).
pub fn trace(p: &Params<Fe>, optimized: bool, input: &[Fe]) -> Vec<Vec<Fe>> {
    let steps = if optimized { optimized_steps(p.r_f, p.r_p) } else { textbook_steps(p.r_f, p.r_p) };
    let mut s = input.to_vec();
    let mut v = vec![s.clone()];
    for st in steps {
        apply(p, st, &mut s);
        v.push(s.clone());
    }
    v
}

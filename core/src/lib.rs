//! Adapters between the reference model and the implementation under test.
pub mod custom;

use decaf377::Fq;
use poseidon377::Instance;
use refmodel::poseidon::{self, Params};
use refmodel::report::guard;
use refmodel::{Fe, Field};

pub fn fq(x: Fe) -> Fq {
    Fq::from_montgomery_limbs(x.0)
}
pub fn fe(x: Fq) -> Fe {
    let b = x.to_bytes();
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    Fe::from_canonical(l)
}
/// The conversion itself is checked against the byte interface of the field type.
pub fn check_conversion() {
    for x in refmodel::space::core() {
        assert_eq!(fe(fq(x)), x);
        assert_eq!(fq(x), Fq::from_le_bytes_mod_order(&x.to_bytes()));
    }
}
pub fn fqs<const T: usize>(v: &[Fe]) -> [Fq; T] {
    core::array::from_fn(|i| fq(v[i]))
}
pub fn show(v: &[Fe]) -> String {
    v.iter().map(|x| x.hex()).collect::<Vec<_>>().join(",")
}

/// hash_{rate}(v[0]; v[1..])
pub fn hash(rate: usize, v: &[Fe]) -> Fe {
    let q: Vec<Fq> = v.iter().map(|x| fq(*x)).collect();
    fe(match rate {
        1 => poseidon377::hash_1(&q[0], q[1]),
        2 => poseidon377::hash_2(&q[0], (q[1], q[2])),
        3 => poseidon377::hash_3(&q[0], (q[1], q[2], q[3])),
        4 => poseidon377::hash_4(&q[0], (q[1], q[2], q[3], q[4])),
        5 => poseidon377::hash_5(&q[0], (q[1], q[2], q[3], q[4], q[5])),
        6 => poseidon377::hash_6(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6])),
        7 => poseidon377::hash_7(&q[0], (q[1], q[2], q[3], q[4], q[5], q[6], q[7])),
        _ => unreachable!(),
    })
}
pub fn hash_guarded(rate: usize, v: &[Fe]) -> Result<Fe, String> {
    guard(|| hash(rate, v))
}

/// (digest, output words) of a fresh instance.
pub type PermOut = (Fe, Vec<Fe>);
pub fn perm(rate: usize, optimized: bool, v: &[Fe]) -> PermOut {
    macro_rules! go {
        ($p:ident, $t:expr) => {{
            let mut i = Instance::new(&poseidon377::$p);
            let a: [Fq; $t] = fqs::<$t>(v);
            let d = if optimized { i.n_to_1_fixed_hash(&a) } else { i.unoptimized_n_to_1_fixed_hash(a) };
            (fe(d), i.output_words().iter().map(|x| fe(*x)).collect())
        }};
    }
    match rate {
        1 => go!(RATE_1_PARAMS, 2),
        2 => go!(RATE_2_PARAMS, 3),
        3 => go!(RATE_3_PARAMS, 4),
        4 => go!(RATE_4_PARAMS, 5),
        5 => go!(RATE_5_PARAMS, 6),
        6 => go!(RATE_6_PARAMS, 7),
        7 => go!(RATE_7_PARAMS, 8),
        _ => unreachable!(),
    }
}
pub fn perm_guarded(rate: usize, optimized: bool, v: &[Fe]) -> Result<PermOut, String> {
    guard(|| perm(rate, optimized, v))
}

/// Reference machines for all seven rates.
pub struct Model {
    pub p: Vec<Params<Fe>>,
    pub textbook: Vec<poseidon::Step>,
    pub optimized: Vec<poseidon::Step>,
}
impl Model {
    pub fn new() -> Model {
        let p: Vec<_> = (1..=7).map(|r| poseidon::shipped(r + 1)).collect();
        Model {
            textbook: poseidon::textbook_steps(8, 31),
            optimized: poseidon::optimized_steps(8, 31),
            p,
        }
    }
    pub fn params(&self, rate: usize) -> &Params<Fe> {
        &self.p[rate - 1]
    }
    pub fn words(&self, rate: usize, v: &[Fe]) -> Vec<Fe> {
        poseidon::run(self.params(rate), &self.textbook, v)
    }
    pub fn digest(&self, rate: usize, v: &[Fe]) -> Fe {
        self.words(rate, v)[1]
    }
}
impl Default for Model {
    fn default() -> Self {
        Model::new()
    }
}

/// The input spaces used for every value-quantified property, simplest first.
pub fn spaces(m: &Model, rate: usize, thorough: bool, repo: &str) -> Vec<refmodel::space::Space> {
    spaces_sized(m, rate, thorough, repo, if thorough { 65536 } else { 1100 }, true)
}
/// `small`: integers below this bound take part in the single-position sweeps; `bytes`: and every
/// byte value at every byte offset.
pub fn spaces_sized(m: &Model, rate: usize, thorough: bool, repo: &str, small: u64, bytes: bool) -> Vec<refmodel::space::Space> {
    use refmodel::space::*;
    let t = rate + 1;
    let c = core();
    let k = if thorough {
        [0, 0, 32, 32, 22, 13, 8, 6, 5][t]
    } else {
        [0, 0, 32, 20, 10, 6, 4, 3, 3][t]
    };
    let dict = dictionary(repo);
    let mut wide_al = wide(small, bytes);
    wide_al.extend(dict.iter().copied());
    // round constants and their negations: values that zero a word right after a constant is added
    let p = m.params(rate);
    let mut rc: Vec<Fe> = vec![];
    for r in p.arc.iter().chain(p.opt.arc.iter()) {
        for x in r {
            rc.push(*x);
            rc.push(x.neg());
        }
    }
    let bg = backgrounds(t);
    let nbg = if thorough { 4 } else { 2 };
    let maps: Vec<Vec<Fe>> = vec![
        (0..t).map(|i| Fe::from_u64(i as u64)).collect(),
        (0..t).map(|i| p2(100).sub(Fe::from_u64(i as u64 * 31))).collect(),
        (0..t).rev().map(|i| Fe::from_u64(i as u64).neg()).collect(),
    ];
    let nm = if thorough { 3 } else { 1 };
    let mut v = vec![
        Space::List(vec![vec![Fe::zero(); t], vec![Fe::one(); t], vec![Fe::one().neg(); t]]),
        Space::Product { t, al: c[..k.min(c.len())].to_vec() },
        Space::Sweep { t, al: wide_al, bg: if thorough { bg[..2].to_vec() } else { vec![bg[0].clone()] } },
        Space::Sweep { t, al: rc, bg: bg[..1].to_vec() },
        Space::Sweep { t, al: c.clone(), bg: bg.clone() },
        Space::Pairs {
            t,
            al: { let mut a = c[..if thorough { 32 } else { 10 }].to_vec(); a.extend(dict.iter().take(60)); let mut s = std::collections::HashSet::new(); a.into_iter().filter(|x| s.insert(*x)).take(if thorough { 64 } else { 16 }).collect() },
            bg: bg[2..3].to_vec(),
        },
        Space::Patterns { pats: partitions(t), maps: maps[..nm].to_vec() },
    ];
    let mut xs = vec![p2(150).sub(Fe::from_u64(12345)), Fe::from_u64(3)];
    if thorough {
        xs.extend(c.iter().skip(3).copied());
    }
    v.push(Space::List(related(t, &xs)));
    let r = roots();
    let mut vals: Vec<Fe> = if thorough { c[..16].to_vec() } else { c[..3].to_vec() };
    vals.extend(r.iter().take(if thorough { 8 } else { 0 }));
    for o in [false, true] {
        v.push(steer(p, o, &vals, nbg).expect("shipped parameters are invertible"));
        if !thorough {
            v.push(steer(p, o, &r[..4], 1).expect("shipped parameters are invertible"));
        }
        v.push(steer_patterns(p, o).expect("shipped parameters are invertible"));
    }
    v
}

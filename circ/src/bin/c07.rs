//! C07: histories. Every operation sequence up to a depth over two instances and the free functions, all
//! ordered pairs over a set of related calls, every short sequence in a fresh process, long runs, and
//! histories that mix native and in-circuit hashing. Histories run single-threaded in shard processes, so
//! each history is the whole history of its process from its start on.
use mc_circ::*;
use mc_core::*;
use poseidon377::Instance;
use refmodel::report::*;
use refmodel::space;
use refmodel::{Fe, Field};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};

/// Work of one shard: counts, and the first violation.
struct Shard {
    shard: usize,
    n: usize,
    next: usize,
    execs: u64,
    seqs: u64,
    bad: Option<Bad>,
}
impl Shard {
    fn mine(&mut self) -> bool {
        self.next += 1;
        self.bad.is_none() && (self.next - 1) % self.n == self.shard
    }
    fn done(&mut self, r: Result<u64, Bad>) {
        self.seqs += 1;
        match r {
            Ok(k) => self.execs += k,
            Err(b) => self.bad = Some(b),
        }
    }
}
/// Model results, computed once per distinct input.
struct Oracle {
    m: Model,
    memo: HashMap<(usize, Vec<Fe>), Vec<Fe>>,
}
impl Oracle {
    fn words(&mut self, rate: usize, v: &[Fe]) -> Vec<Fe> {
        if let Some(w) = self.memo.get(&(rate, v.to_vec())) {
            return w.clone();
        }
        let w = self.m.words(rate, v);
        self.memo.insert((rate, v.to_vec()), w.clone());
        w
    }
}

// ---------------------------------------------------------------------------------------------------
// histories over two instances of one rate

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// optimized hash on instance i of input k
    Opt(usize, usize),
    Unopt(usize, usize),
    /// replace the instance by a new one
    New(usize),
    Free(usize),
    /// hash of another rate
    Other(usize, usize),
    /// on instance i, hash the words that instance j holds
    ChainOpt(usize, usize),
    ChainUnopt(usize, usize),
    /// free hash of the words of instance i
    ChainFree(usize),
}
fn inputs(t: usize) -> Vec<Vec<Fe>> {
    let a = generic(t);
    let mut b = a.clone();
    b[t - 1] = b[t - 1].add(Fe::one());
    vec![a, b, vec![Fe::zero(); t]]
}
fn ops(rate: usize, small: bool) -> Vec<Op> {
    let mut v = vec![];
    for k in 0..if small { 2 } else { 3 } {
        for i in 0..2 {
            v.push(Op::Opt(i, k));
            v.push(Op::Unopt(i, k));
        }
        v.push(Op::Free(k));
    }
    v.push(Op::ChainOpt(0, 0));
    v.push(Op::ChainUnopt(0, 0));
    v.push(Op::ChainOpt(1, 0));
    if !small {
        v.push(Op::ChainUnopt(1, 0));
        v.push(Op::ChainFree(0));
    }
    v.push(Op::New(0));
    v.push(Op::Other(if rate == 1 { 2 } else { rate - 1 }, 0));
    if !small {
        v.push(Op::Other(if rate == 7 { 1 } else { rate + 1 }, 0));
    }
    v
}
macro_rules! seq_fn {
    ($name:ident, $p:ident, $rate:expr, $t:expr) => {
        fn $name(o: &mut Oracle, seq: &[Op], read_all: bool) -> Result<u64, Bad> {
            let case = |k: usize| format!("rate {} history {:?}, operation {k}{}", $rate, seq, if read_all { ", words read after every operation" } else { "" });
            let ins = inputs($t);
            let mut inst = [Instance::new(&poseidon377::$p), Instance::new(&poseidon377::$p)];
            let mut want = [vec![Fe::zero(); $t], vec![Fe::zero(); $t]];
            let mut n = 0;
            let words = |i: &[Instance<'_, $t, { $t - 1 }, { $t * $t }, { ($t - 1) * ($t - 1) }, 39, $t, { 39 * $t }, 31>; 2], w: &[Vec<Fe>; 2], k: usize| -> Result<(), Bad> {
                for j in 0..2 {
                    let got: Vec<Fe> = i[j].output_words().iter().map(|x| fe(*x)).collect();
                    if got != w[j] {
                        return Err(bad(case(k), format!("words of instance {j} are {got:?}, the model has {:?}", w[j])));
                    }
                }
                Ok(())
            };
            if read_all {
                words(&inst, &want, 0)?;
            }
            for (k, op) in seq.iter().enumerate() {
                let (got, exp) = match *op {
                    Op::Opt(i, x) | Op::Unopt(i, x) => {
                        let a = fqs::<$t>(&ins[x]);
                        let g = guard(|| fe(if matches!(op, Op::Opt(..)) { inst[i].n_to_1_fixed_hash(&a) } else { inst[i].unoptimized_n_to_1_fixed_hash(a) }));
                        want[i] = o.words($rate, &ins[x]);
                        (g, want[i][1])
                    }
                    Op::ChainOpt(i, j) | Op::ChainUnopt(i, j) => {
                        let x = want[j].clone();
                        let a = fqs::<$t>(&x);
                        let g = guard(|| fe(if matches!(op, Op::ChainOpt(..)) { inst[i].n_to_1_fixed_hash(&a) } else { inst[i].unoptimized_n_to_1_fixed_hash(a) }));
                        want[i] = o.words($rate, &x);
                        (g, want[i][1])
                    }
                    Op::ChainFree(i) => (hash_guarded($rate, &want[i]), o.words($rate, &want[i])[1]),
                    Op::New(i) => {
                        inst[i] = Instance::new(&poseidon377::$p);
                        want[i] = vec![Fe::zero(); $t];
                        (Ok(Fe::zero()), Fe::zero())
                    }
                    Op::Free(x) => (hash_guarded($rate, &ins[x]), o.words($rate, &ins[x])[1]),
                    Op::Other(r, x) => {
                        let v = &inputs(r + 1)[x];
                        (hash_guarded(r, v), o.words(r, v)[1])
                    }
                };
                n += 1;
                let got = got.map_err(|e| bad(case(k + 1), format!("panicked: {e}")))?;
                if got != exp {
                    return Err(bad(case(k + 1), format!("result {got:?}, alone {exp:?}")));
                }
                if read_all || k + 1 == seq.len() {
                    words(&inst, &want, k + 1)?;
                }
            }
            Ok(n)
        }
    };
}
seq_fn!(seq1, RATE_1_PARAMS, 1, 2);
seq_fn!(seq2, RATE_2_PARAMS, 2, 3);
seq_fn!(seq3, RATE_3_PARAMS, 3, 4);
seq_fn!(seq4, RATE_4_PARAMS, 4, 5);
seq_fn!(seq5, RATE_5_PARAMS, 5, 6);
seq_fn!(seq6, RATE_6_PARAMS, 6, 7);
seq_fn!(seq7, RATE_7_PARAMS, 7, 8);
const SEQ: [fn(&mut Oracle, &[Op], bool) -> Result<u64, Bad>; 7] = [seq1, seq2, seq3, seq4, seq5, seq6, seq7];

fn histories(o: &mut Oracle, s: &mut Shard, rate: usize, depth: usize, small: bool) {
    let al = ops(rate, small);
    for read_all in [true, false] {
        for d in 1..=depth {
            for i in 0..words(al.len(), d) {
                if s.mine() {
                    let seq: Vec<Op> = space::word(i, al.len(), d).into_iter().map(|k| al[k]).collect();
                    let r = SEQ[rate - 1](o, &seq, read_all);
                    s.done(r);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// pairs of related calls

/// Calls that a cache with a weak key, or state left behind, could confuse with one another.
fn related(rate: usize, wide: bool) -> Vec<(usize, Vec<Fe>)> {
    let t = rate + 1;
    let base = generic(t);
    let mut v: Vec<Vec<Fe>> = vec![base.clone()];
    let bits: &[usize] = if wide { &[0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 191, 192, 251] } else { &[0, 8, 32, 64, 128, 192, 251] };
    for i in 0..t {
        for k in bits {
            let mut a = base.clone();
            a[i] = a[i].add(space::p2(*k));
            v.push(a);
            // the same limb pattern in Montgomery form
            let mut a = base.clone();
            let mut l = a[i].0;
            l[k / 64] ^= 1 << (k % 64);
            if l[3] >> 60 == 0 {
                a[i] = Fe::from_mont_limbs(l);
                v.push(a);
            }
        }
        let mut a = base.clone();
        a[i] = a[i].neg();
        v.push(a);
        let mut a = base.clone();
        a[i] = Fe::zero();
        v.push(a);
        let mut a = vec![Fe::zero(); t];
        a[i] = base[i];
        v.push(a);
        for j in i + 1..t {
            let mut a = base.clone();
            a.swap(i, j);
            v.push(a);
            // same sum
            let mut a = base.clone();
            a[i] = a[i].add(Fe::one());
            a[j] = a[j].sub(Fe::one());
            v.push(a);
            // same product
            let mut a = base.clone();
            a[i] = a[i].mul(Fe::from_u64(3));
            a[j] = a[j].mul(Fe::from_u64(3).inv().unwrap());
            v.push(a);
            // same exclusive or of the words
            let (x, y) = (base[i].limbs(), base[j].limbs());
            if (x[0] ^ y[0]) & 1 == 1 || wide {
                let mut a = base.clone();
                let (mut x2, mut y2) = (x, y);
                x2[0] ^= 1;
                y2[0] ^= 1;
                a[i] = Fe::from_limbs_mod(x2);
                a[j] = Fe::from_limbs_mod(y2);
                v.push(a);
            }
        }
    }
    let mut rot = base.clone();
    rot.rotate_left(1);
    v.push(rot);
    for b in space::backgrounds(t) {
        v.push(b);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v.into_iter().map(|x| (rate, x)).collect()
}
/// Prefixes, paddings and extensions: the same words at every arity.
fn cross() -> Vec<(usize, Vec<Fe>)> {
    let mut out = vec![];
    let g = generic(8);
    for rate in 1..=7 {
        let t = rate + 1;
        out.push((rate, g[..t].to_vec()));
        out.push((rate, g[8 - t..].to_vec()));
        for k in 1..t {
            let mut a = g[..k].to_vec();
            a.resize(t, Fe::zero());
            out.push((rate, a));
            let mut a = vec![Fe::zero(); t - k];
            a.extend_from_slice(&g[..k]);
            out.push((rate, a));
        }
        out.push((rate, vec![Fe::zero(); t]));
        out.push((rate, vec![Fe::one(); t]));
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out
}
/// kind: 0 free function, 1 fresh instance optimized, 2 fresh instance textbook
fn call(kind: usize, rate: usize, v: &[Fe]) -> Result<Fe, String> {
    match kind {
        0 => hash_guarded(rate, v),
        k => perm_guarded(rate, k == 1, v).map(|x| x.0),
    }
}
fn pairs(o: &mut Oracle, s: &mut Shard, al: &[(usize, Vec<Fe>)], kinds: &[(usize, usize)]) {
    for x in 0..al.len() {
        for y in 0..al.len() {
            if x == y || !s.mine() {
                continue;
            }
            let (kx, ky) = kinds[(x + y) % kinds.len()];
            let mut r = Ok(3);
            for (n, (k, c)) in [(kx, &al[x]), (ky, &al[y]), (kx, &al[x])].into_iter().enumerate() {
                let want = o.words(c.0, &c.1)[1];
                let got = call(k, c.0, &c.1);
                if got != Ok(want) {
                    let f = |c: &(usize, Vec<Fe>)| format!("hash_{}({})", c.0, show(&c.1));
                    r = Err(bad(format!("calls x={} y={} in the order x y x (kinds {kx},{ky}), call {}", f(&al[x]), f(&al[y]), n + 1), format!("result {got:?}, alone {want:?}")));
                    break;
                }
            }
            s.done(r);
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// long runs

fn long(o: &mut Oracle, s: &mut Shard, rate: usize, kind: usize, n: usize) {
    if !s.mine() {
        return;
    }
    let t = rate + 1;
    let ins: Vec<Vec<Fe>> = (0..509u64).map(|i| (0..t as u64).map(|j| Fe::from_u64(i * 8 + j + 1).pow(5)).collect()).collect();
    let want: Vec<Vec<Fe>> = ins.iter().map(|v| o.words(rate, v)).collect();
    macro_rules! go {
        ($p:ident, $t:expr) => {{
            let mut inst = Instance::new(&poseidon377::$p);
            for i in 0..n {
                let k = i % ins.len();
                let a: [decaf377::Fq; $t] = fqs::<$t>(&ins[k]);
                let opt = if kind == 3 { i % 2 == 0 } else { kind == 1 };
                let d = guard(|| fe(if opt { inst.n_to_1_fixed_hash(&a) } else { inst.unoptimized_n_to_1_fixed_hash(a) }));
                if d != Ok(want[k][1]) || (i % 64 == 0 && inst.output_words().iter().map(|x| fe(*x)).collect::<Vec<_>>() != want[k]) {
                    return s.done(Err(bad(format!("rate {rate}: call {} on one instance (kind {kind}), input {}", i + 1, show(&ins[k])), format!("result {d:?}, alone {:?}", want[k][1]))));
                }
            }
        }};
    }
    match kind {
        0 => {
            for i in 0..n {
                let k = i % ins.len();
                let d = hash_guarded(rate, &ins[k]);
                if d != Ok(want[k][1]) {
                    return s.done(Err(bad(format!("call {} of hash_{rate}, input {}", i + 1, show(&ins[k])), format!("result {d:?}, alone {:?}", want[k][1]))));
                }
            }
        }
        _ => match rate {
            1 => go!(RATE_1_PARAMS, 2),
            2 => go!(RATE_2_PARAMS, 3),
            3 => go!(RATE_3_PARAMS, 4),
            4 => go!(RATE_4_PARAMS, 5),
            5 => go!(RATE_5_PARAMS, 6),
            6 => go!(RATE_6_PARAMS, 7),
            _ => go!(RATE_7_PARAMS, 8),
        },
    }
    s.done(Ok(n as u64))
}

// ---------------------------------------------------------------------------------------------------
// in-circuit histories

#[derive(Clone, Copy, Debug)]
enum COp {
    /// hash of input k in a new constraint system
    Fresh(usize, usize, Mode),
    /// hash in the long-lived constraint system c
    In(usize, usize, usize),
    Native(usize, usize),
    /// in setup mode
    Setup(usize),
}
fn circuit_histories(o: &mut Oracle, s: &mut Shard, rate: usize, depth: usize) {
    use ark_r1cs_std::prelude::*;
    let t = rate + 1;
    let other = if rate == 1 { 2 } else { rate - 1 };
    let al = [
        COp::Fresh(rate, 0, Mode::Witness),
        COp::Fresh(rate, 1, Mode::Witness),
        COp::Fresh(rate, 0, Mode::Const),
        COp::Fresh(other, 0, Mode::Input),
        COp::In(0, rate, 0),
        COp::In(0, rate, 1),
        COp::In(1, rate, 0),
        COp::Native(rate, 0),
        COp::Native(other, 1),
        COp::Setup(rate),
    ];
    let base: HashMap<(usize, u8), forge::System> = [(rate, Mode::Witness), (rate, Mode::Const), (other, Mode::Input)]
        .into_iter()
        .map(|(r, m)| ((r, m as u8), forge::System::from(&synth(&Scenario::single(&vec![m; r + 1], &inputs(r + 1)[0], 0), true).expect("synthesis in a fresh process"))))
        .collect();
    let _ = t;
    for d in 1..=depth {
        for i in 0..words(al.len(), d) {
            if !s.mine() {
                continue;
            }
            let seq: Vec<COp> = space::word(i, al.len(), d).into_iter().map(|k| al[k]).collect();
            let case = |k: usize| format!("in-circuit history {seq:?}, operation {}", k + 1);
            let mut r: Result<u64, Bad> = Ok(d as u64);
            let css: Vec<Cs> = (0..2).map(|_| ark_relations::r1cs::ConstraintSystem::<decaf377::Fq>::new_ref()).collect();
            for (k, op) in seq.iter().enumerate() {
                let (got, want) = match *op {
                    COp::Native(r, x) => (hash_guarded(r, &inputs(r + 1)[x]), o.words(r, &inputs(r + 1)[x])[1]),
                    COp::Fresh(r, x, m) => {
                        let v = &inputs(r + 1)[x];
                        let g = synth(&Scenario::single(&vec![m; r + 1], v, 0), true).and_then(|c| {
                            if (m != Mode::Const || x == 0) && forge::System::from(&c) != base[&(r, m as u8)] {
                                return Err("the constraint system differs from the one of the first call".into());
                            }
                            if !c.cs.is_satisfied().unwrap_or(false) {
                                return Err("the honest assignment is rejected".into());
                            }
                            c.digests[0].ok_or("no digest".to_string())
                        });
                        (g, o.words(r, v)[1])
                    }
                    COp::In(c, r, x) => {
                        let v = &inputs(r + 1)[x];
                        let g = guard(|| {
                            let a: Vec<_> = v.iter().map(|e| alloc(&css[c], Mode::Witness, *e, false).unwrap()).collect();
                            hash_var(css[c].clone(), r, &a).map_err(|e| e.to_string()).and_then(|d| d.value().map(fe).map_err(|e| e.to_string()))
                        })
                        .and_then(|x| x);
                        (g, o.words(r, v)[1])
                    }
                    COp::Setup(r) => {
                        let sc = Scenario { setup: true, ..Scenario::single(&vec![Mode::Witness; r + 1], &inputs(r + 1)[0], 0) };
                        let g = synth(&sc, true).and_then(|c| if forge::System::from(&c) != base[&(r, Mode::Witness as u8)] { Err("setup mode builds another constraint system".into()) } else { Ok(Fe::zero()) });
                        (g, Fe::zero())
                    }
                };
                if got != Ok(want) {
                    r = Err(bad(case(k), format!("result {got:?}, alone {want:?}")));
                    break;
                }
            }
            if r.is_ok() {
                for c in &css {
                    if !c.is_satisfied().unwrap_or(false) {
                        r = Err(bad(case(d - 1), "the honest assignment of a shared constraint system is rejected".to_string()));
                    }
                }
            }
            s.done(r);
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// short sequences in a fresh process

#[derive(Clone, Copy, Debug)]
struct G {
    kind: usize, // as in `call`, 3: in-circuit witness, 4: in-circuit constants
    rate: usize,
    x: usize,
}
fn global_ops(kinds: &[usize], xs: usize) -> Vec<G> {
    let mut v = vec![];
    for rate in 1..=7 {
        for kind in kinds {
            for x in 0..xs {
                v.push(G { kind: *kind, rate, x });
            }
        }
    }
    v
}
fn run_g(g: &G) -> Result<Fe, String> {
    let v = &inputs(g.rate + 1)[g.x];
    match g.kind {
        3 | 4 => {
            let m = if g.kind == 3 { Mode::Witness } else { Mode::Const };
            let r = synth(&Scenario::single(&vec![m; g.rate + 1], v, 0), false)?;
            if !r.cs.is_satisfied().unwrap_or(false) {
                return Err("rejected".into());
            }
            r.digests[0].ok_or("no digest".into())
        }
        k => call(k, g.rate, v),
    }
}
fn fresh_main(arg: &str) {
    let mut out = String::new();
    for w in arg.split(',') {
        let n: Vec<usize> = w.split('.').map(|x| x.parse().unwrap()).collect();
        match run_g(&G { kind: n[0], rate: n[1], x: n[2] }) {
            Ok(d) => writeln!(out, "{}", d.hex()).unwrap(),
            Err(e) => writeln!(out, "error {}", e.replace('\n', " ")).unwrap(),
        }
    }
    print!("{out}");
}
fn fresh(run: &Run, al: &[G], depth: usize, want: &HashMap<(usize, usize), Fe>) -> Result<(), Bad> {
    let exe = std::env::current_exe().expect("own path");
    run.par(words(al.len(), depth), |i| {
        let seq: Vec<G> = space::word(i, al.len(), depth).into_iter().map(|k| al[k]).collect();
        let arg: Vec<String> = seq.iter().map(|g| format!("{}.{}.{}", g.kind, g.rate, g.x)).collect();
        let case = format!("fresh process, history {seq:?}");
        let out = Command::new(&exe).arg("--fresh").arg(arg.join(",")).stderr(Stdio::null()).output().map_err(|e| bad(case.clone(), e.to_string()))?;
        let got: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
        let exp: Vec<String> = seq.iter().map(|g| want[&(g.rate, g.x)].hex()).collect();
        run.count(1, depth as u64, depth as u64);
        if got != exp {
            return Err(bad(case, format!("results {got:?} (status {:?}), alone {exp:?}", out.status.code())));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------------

fn part(name: &str, th: bool, o: &mut Oracle, s: &mut Shard) {
    match name {
        "histories" => {
            for rate in 1..=7 {
                histories(o, s, rate, if th { 4 } else { 3 }, false);
            }
            for rate in 1..=if th { 3 } else { 2 } {
                histories(o, s, rate, if th { 5 } else { 4 }, true);
            }
        }
        "pairs" => {
            for rate in 1..=7 {
                let mut al = related(rate, th);
                if !th && rate > 4 {
                    let keep = 110;
                    let n = al.len();
                    al = al.into_iter().enumerate().filter(|(i, _)| i * keep / n != (i + 1) * keep / n || *i == 0).map(|x| x.1).collect();
                }
                pairs(o, s, &al, &[(0, 0)]);
                if th {
                    pairs(o, s, &al, &[(1, 0), (0, 1), (2, 0), (0, 2), (1, 2), (2, 2), (2, 1)]);
                }
            }
            pairs(o, s, &cross(), &[(0, 0)]);
            pairs(o, s, &cross(), &[(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (1, 2), (2, 2), (2, 1)]);
        }
        "long" => {
            for rate in (1..=7).rev() {
                for kind in 0..4 {
                    let n = if th { 1_100_000 } else if kind == 3 { 20_000 } else if rate <= 2 { 140_000 } else { 66_500 };
                    long(o, s, rate, kind, n);
                }
            }
        }
        "circuit" => {
            for rate in (1..=7).rev() {
                circuit_histories(o, s, rate, if th { 4 } else if rate < 5 { 3 } else { 2 });
            }
        }
        _ => unreachable!(),
    }
}
fn worker(name: &str, shard: usize, n: usize, th: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = Oracle { m: Model::new(), memo: HashMap::new() };
    let mut s = Shard { shard, n, next: 0, execs: 0, seqs: 0, bad: None };
    part(name, th, &mut o, &mut s);
    let mut out = std::io::stdout().lock();
    if let Some(b) = &s.bad {
        writeln!(out, "BAD\n{}\n{}", b.case.replace('\n', " "), b.detail).unwrap();
    } else {
        writeln!(out, "OK {} {}", s.seqs, s.execs).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--fresh").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        return fresh_main(&a[2]);
    }
    if a.get(1).map(|x| x == "--worker").unwrap_or(false) {
        let (name, shard, n, th) = (a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "thorough");
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(&name, shard, n, th)).unwrap().join().unwrap();
        return;
    }
    let run = Run::new("C07");
    check_conversion();
    let th = run.thorough();
    let m = Model::new();
    let want: HashMap<(usize, usize), Fe> = (1..=7).flat_map(|r| (0..3).map(move |x| (r, x))).map(|(r, x)| ((r, x), m.digest(r, &inputs(r + 1)[x]))).collect();
    run.begin();
    let g1 = global_ops(&[0, 1, 2, 3, 4], 3);
    let r = fresh(&run, &g1, 1, &want);
    run.end(&format!("first call in a fresh process: {} operations", g1.len()));
    run.check(r);
    let g2 = global_ops(&[0, 1, 2, 3, 4], if th { 3 } else { 2 });
    let r = fresh(&run, &g2, 2, &want);
    run.end(&format!("two calls in a fresh process: all pairs of {} operations", g2.len()));
    run.check(r);
    let g3 = if th { global_ops(&[0, 2, 3], 2) } else { global_ops(&[0, 1, 2, 3, 4], 1) };
    let r = fresh(&run, &g3, 3, &want);
    run.end(&format!("three calls in a fresh process: all triples of {} operations", g3.len()));
    run.check(r);
    let exe = std::env::current_exe().expect("own path");
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    for (name, what) in [
        ("histories", "all operation sequences over two instances and free functions"),
        ("pairs", "x y x for all ordered pairs of related calls"),
        ("long", "long runs"),
        ("circuit", "all sequences of in-circuit and native operations"),
    ] {
        let kids: Vec<_> = (0..n)
            .map(|i| {
                Command::new(&exe).args(["--worker", name, &i.to_string(), &n.to_string(), &run.tier]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker")
            })
            .collect();
        let mut seqs = 0;
        let mut first: Option<Bad> = None;
        for (i, k) in kids.into_iter().enumerate() {
            let out = k.wait_with_output().expect("worker output");
            let s = String::from_utf8_lossy(&out.stdout).to_string();
            let mut l = s.lines();
            match l.next() {
                Some(h) if h.starts_with("OK ") => {
                    let v: Vec<u64> = h[3..].split(' ').map(|x| x.parse().unwrap()).collect();
                    seqs += v[0];
                    run.count(v[0], v[1], v[1]);
                }
                Some("BAD") => {
                    let case = l.next().unwrap_or("").to_string();
                    let d = l.collect::<Vec<_>>().join("\n");
                    first.get_or_insert(bad(case, d));
                }
                _ => {
                    first.get_or_insert(bad(format!("{name}: shard {i} of {n}"), format!("the process running the histories ended abnormally ({:?})", out.status)));
                }
            }
        }
        run.end(&format!("{what}: {seqs} histories"));
        if let Some(b) = first {
            run.violation(&b);
        }
    }
    run.sample("rate 2 history [Opt(0, 0), Unopt(1, 2), Opt(0, 1)], words of both instances compared after every operation");
    run.sample("fresh process, history [hash_3, in-circuit hash_3, unoptimized rate 5]");
    run.assume("state kept by the implementation that only appears after more operations than the depth, and not in the pair or long-run histories, is not seen");
    run.pass()
}

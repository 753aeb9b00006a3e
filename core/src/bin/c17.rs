//! C17: the probe (../cfgs) is built in every configuration and answers the same questions in each; every
//! answer is compared with the reference machine.
use mc_core::*;
use refmodel::poseidon::{self, Params, Sbox};
use refmodel::report::*;
use refmodel::space::*;
use refmodel::{Fe, Field};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
struct Cfg {
    name: String,
    /// Configurations of one group share a target directory and are built one after another.
    group: String,
    features: String,
    kind: Kind,
    /// Which list of questions: 0 few, 1 many, 2 most.
    size: usize,
    r1cs: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// profile, extra RUSTFLAGS
    Native(&'static str, &'static str),
    Wasm32,
    /// compile only
    Thumb,
}

/// Every distinct closure of the feature sets of the three crates (feature names of ../cfgs).
fn levels(all: bool) -> Vec<Vec<&'static str>> {
    let mut v = vec![];
    if !all {
        for l in ["", "alloc", "std", "arkworks", "r1cs", "params_alloc", "params_std", "perm_std"] {
            v.push(if l.is_empty() { vec![] } else { vec![l] });
        }
        return v;
    }
    for l in ["", "alloc", "std", "arkworks", "r1cs"] {
        for p in [vec![], vec!["params_alloc"], vec!["params_std"], vec!["params_std", "params_alloc"], vec!["perm_std"], vec!["perm_std", "params_alloc"]] {
            if l == "r1cs" && p.iter().any(|x| *x != "params_alloc") {
                continue; // r1cs implies perm_std, which implies params_std
            }
            let mut w = p.clone();
            if !l.is_empty() {
                w.push(l);
            }
            v.push(w);
        }
    }
    v
}

fn configs(thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |group: &str, feats: Vec<&str>, kind: Kind, size: usize| {
        let features = feats.join(",");
        let kn = match &kind {
            Kind::Native(p, f) => format!("{p}{f}"),
            Kind::Wasm32 => "wasm32".into(),
            Kind::Thumb => "thumbv8m".into(),
        };
        v.push(Cfg {
            name: format!("{kn} [{features}]"),
            group: group.into(),
            r1cs: feats.contains(&"r1cs"),
            features,
            kind,
            size,
        });
    };
    for u32b in [false, true] {
        for par in [false, true] {
            for l in levels(thorough) {
                let mut f = l.clone();
                if u32b {
                    f.push("u32_backend");
                }
                if par {
                    f.push("parallel");
                }
                let most = thorough || (!par && (l.is_empty() || l == ["r1cs"]));
                add(&format!("rel-{}{}", u32b as u8, par as u8), f, Kind::Native("release", ""), 1 + most as usize);
            }
        }
        let b = |mut f: Vec<&'static str>| {
            if u32b {
                f.push("u32_backend")
            }
            f
        };
        for l in levels(thorough) {
            if thorough || matches!(l.first(), None | Some(&"r1cs") | Some(&"alloc")) {
                add(&format!("dev-{}", u32b as u8), b(l), Kind::Native("dev", ""), thorough as usize);
            }
        }
        add("small", b(vec![]), Kind::Native("small", ""), 1);
        add("small", b(vec!["std"]), Kind::Native("small", ""), 1);
        add("cpu", b(vec![]), Kind::Native("release", "-Ctarget-cpu=native"), 1);
        add("cpu", b(vec!["arkworks"]), Kind::Native("release", "-Ctarget-cpu=native"), 1);
        add("wasm", b(vec![]), Kind::Wasm32, thorough as usize);
        add("wasm", b(vec!["alloc"]), Kind::Wasm32, 0);
        add("wasm", b(vec!["alloc", "params_alloc"]), Kind::Wasm32, 0);
        add("thumb", b(vec![]), Kind::Thumb, 0);
        if thorough {
            add("plain", b(vec![]), Kind::Native("plain", ""), 0);
            add("plain", b(vec!["r1cs"]), Kind::Native("plain", ""), 0);
            add("small", b(vec!["r1cs"]), Kind::Native("small", ""), 1);
            add("cpu", b(vec!["r1cs"]), Kind::Native("release", "-Ctarget-cpu=native"), 1);
        }
    }
    v
}

/// The small-field build (../small) in some of the configurations: profile, features.
const SMALL: [(&str, &str); 6] = [
    ("plain", ""),
    ("asserts", ""),
    ("plain", "circ"),
    ("asserts", "circ"),
    ("plain", "arkworks,parallel,u32_backend"),
    ("asserts", "alloc,perm_std"),
];
/// `None`: the tree cannot be compiled that way (no part of the verdict).
fn build_small(i: usize) -> Option<String> {
    let (p, f) = SMALL[i];
    let dir = format!("{}/target/smallcfg/{i}", verif());
    let out = format!("{dir}/{p}/mc-small");
    let _ = std::fs::remove_file(&out);
    let o = Command::new("cargo")
        .current_dir(format!("{}/small", verif()))
        .env("CARGO_TARGET_DIR", &dir)
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .args(["build", "--offline", "-q", "--profile", p, "--no-default-features", "--features", f])
        .output()
        .ok()?;
    if std::env::var("C17_LOG").is_ok() && !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
    }
    o.status.success().then_some(out)
}

enum Fail {
    Repo(String),
    Harness(String),
}

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Build one configuration; the path of what to run.
fn build(c: &Cfg) -> Result<String, Fail> {
    let dir = format!("{}/target/cfg/{}", verif(), c.group);
    let mut cmd = Command::new("cargo");
    cmd.current_dir(format!("{}/cfgs", verif()));
    cmd.env("CARGO_TARGET_DIR", &dir).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS");
    let (profile_dir, out);
    match &c.kind {
        Kind::Native(p, flags) => {
            cmd.args(["build", "--offline", "--profile", p, "--features", &c.features]);
            if !flags.is_empty() {
                cmd.env("RUSTFLAGS", flags);
            }
            profile_dir = if *p == "dev" { "debug" } else { p };
            out = format!("{dir}/{profile_dir}/mc-probe");
        }
        Kind::Wasm32 => {
            cmd.args(["+nightly", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "-Zbuild-std=core,alloc", "-Zjson-target-spec", "--target", "wasm32.json", "--features", &c.features]);
            out = format!("{dir}/wasm32/release/mc_probe.wasm");
        }
        Kind::Thumb => {
            cmd.current_dir(format!("{}/cfgs/bare", verif()));
            cmd.args(["+nightly", "build", "--offline", "--release", "-Zbuild-std=core", "--target", "thumbv8m.main-none-eabi", "--features", &c.features]);
            out = String::new();
        }
    }
    let _ = std::fs::remove_file(&out);
    let o = cmd.output().map_err(|e| Fail::Harness(format!("cannot start cargo: {e}")))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        let short: Vec<&str> = e.lines().skip_while(|l| !l.starts_with("error")).take(30).collect();
        let msg = short.join("\n");
        // only an error in the sources of the repository (or in the probe's use of it) is the repository's
        return Err(if e.contains("could not compile `poseidon") || e.contains("could not compile `mc-") {
            Fail::Repo(msg)
        } else {
            Fail::Harness(if msg.is_empty() { e } else { msg })
        });
    }
    if out.is_empty() {
        return Ok(out);
    }
    let keep = format!("{dir}/{}.bin", c.name.replace(|x: char| !x.is_alphanumeric(), "_"));
    std::fs::copy(&out, &keep).map_err(|e| Fail::Harness(format!("{out}: {e}")))?;
    Ok(keep)
}

fn execute(c: &Cfg, bin: &str, input: &[u8]) -> Result<Vec<u8>, String> {
    let dir = format!("{}/work", verif());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let res = format!("{dir}/c17-{}", c.group);
    let _ = std::fs::remove_file(&res);
    let mut cmd = if c.kind == Kind::Wasm32 {
        let mut k = Command::new("node");
        k.args([&format!("{}/cfgs/wasm.js", verif()), bin, &res]);
        k
    } else {
        Command::new(bin)
    };
    let mut ch = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {bin}: {e}"))?;
    let mut si = ch.stdin.take().unwrap();
    let o = std::thread::scope(|s| {
        s.spawn(move || {
            let _ = si.write_all(input);
        });
        ch.wait_with_output()
    })
    .map_err(|e| e.to_string())?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(format!("the program ended with {}: {}", o.status, e.lines().take(12).collect::<Vec<_>>().join(" | ")));
    }
    if c.kind == Kind::Wasm32 {
        let r = std::fs::read(&res).map_err(|e| format!("{res}: {e}"));
        let _ = std::fs::remove_file(&res);
        r
    } else {
        Ok(o.stdout)
    }
}

#[derive(Clone)]
struct Question {
    kind: u8,
    rate: usize,
    alpha: u32,
    v: Vec<Fe>,
}
impl Question {
    fn show(&self) -> String {
        match self.kind {
            0 => "the shipped parameters".into(),
            1 => format!("rate {}: hash and both permutations of {}", self.rate, show(&self.v)),
            2 => format!("rate {} with exponent {} (0 = inverse): both permutations of {}", self.rate, self.alpha, show(&self.v)),
            _ => format!("rate {}: circuit on {}", self.rate, show(&self.v)),
        }
    }
    fn bytes(&self, o: &mut Vec<u8>) {
        o.push(self.kind);
        o.push(self.rate as u8);
        o.extend(self.alpha.to_le_bytes());
        self.v.iter().for_each(|x| o.extend(x.to_bytes()));
    }
    fn answer(&self, m: &Model) -> Vec<u8> {
        let mut o = vec![];
        let mut wr = |x: &[Fe]| x.iter().for_each(|x| o.extend(x.to_bytes()));
        match self.kind {
            0 => return dump(m),
            1 => {
                let w = m.words(self.rate, &self.v);
                wr(&[w[1], w[1]]);
                wr(&w);
                wr(&[w[1]]);
                wr(&w);
            }
            2 => {
                let mut p: Params<Fe> = m.params(self.rate).clone();
                p.sbox = if self.alpha == 0 { Sbox::Inv } else { Sbox::Pow(self.alpha as u64) };
                let w = poseidon::run(&p, &m.textbook, &self.v);
                wr(&[w[1]]);
                wr(&w);
                wr(&[w[1]]);
                wr(&w);
            }
            _ => {
                wr(&[m.digest(self.rate, &self.v)]);
                o.push(1);
            }
        }
        o
    }
}
fn dump(m: &Model) -> Vec<u8> {
    let mut o = vec![];
    fn num(o: &mut Vec<u8>, x: usize) {
        o.extend((x as u64).to_le_bytes())
    }
    fn mat(o: &mut Vec<u8>, r: usize, c: usize, e: &[Fe]) {
        num(o, r);
        num(o, c);
        num(o, e.len());
        e.iter().for_each(|x| o.extend(x.to_bytes()));
    }
    fn fl(m: &[Vec<Fe>]) -> Vec<Fe> {
        m.iter().flatten().copied().collect()
    }
    for rate in 1..=7 {
        let p = m.params(rate);
        let t = rate + 1;
        num(&mut o, 128);
        o.extend(17u32.to_le_bytes());
        num(&mut o, 8);
        num(&mut o, 31);
        num(&mut o, 39);
        let q = &p.opt;
        mat(&mut o, t, t, &fl(&p.mds));
        mat(&mut o, 39, t, &fl(&p.arc));
        mat(&mut o, 39, t, &fl(&q.arc));
        mat(&mut o, t - 1, t - 1, &fl(&q.m_hat));
        mat(&mut o, 1, t - 1, &q.v);
        mat(&mut o, t - 1, 1, &q.w);
        mat(&mut o, t, t, &fl(&q.m_prime));
        mat(&mut o, t, t, &fl(&q.m_doubleprime));
        mat(&mut o, t, t, &fl(&q.m_inverse));
        mat(&mut o, t - 1, t - 1, &fl(&q.m_hat_inverse));
        mat(&mut o, t, t, &fl(&q.m_i));
        o.extend(q.m_00.to_bytes());
        num(&mut o, 31);
        q.v_coll.iter().for_each(|x| mat(&mut o, 1, t - 1, x));
        num(&mut o, 31);
        q.w_hat_coll.iter().for_each(|x| mat(&mut o, t - 1, 1, x));
    }
    o
}

fn questions(m: &Model, size: usize, thorough: bool) -> Vec<Question> {
    let mut v = vec![Question { kind: 0, rate: 0, alpha: 0, v: vec![Fe::zero()] }];
    let c = core();
    for rate in 1..=7 {
        let t = rate + 1;
        let p = m.params(rate);
        let bg = backgrounds(t);
        let maps = vec![(0..t).map(|i| Fe::from_u64(i as u64)).collect::<Vec<_>>()];
        let k = |a: [usize; 9]| c[..a[t]].to_vec();
        let mut sp = vec![Space::List(vec![vec![Fe::zero(); t], vec![Fe::one(); t], vec![Fe::one().neg(); t]])];
        match size {
            0 => {
                sp.push(Space::Product { t, al: k([0, 0, 4, 3, 2, 2, 2, 2, 1]) });
                sp.push(Space::Sweep { t, al: c[..8].to_vec(), bg: bg[..1].to_vec() });
                sp.push(steer(p, false, &c[..1], 1).unwrap());
            }
            1 => {
                sp.push(Space::Product { t, al: k([0, 0, 8, 5, 3, 2, 2, 2, 1]) });
                sp.push(Space::Sweep { t, al: c[..16].to_vec(), bg: bg[..1].to_vec() });
                sp.push(steer(p, false, &c[..1], 1).unwrap());
                sp.push(steer(p, true, &c[..1], 1).unwrap());
                sp.push(Space::Patterns { pats: partitions(t.min(5)).into_iter().map(|mut x| { x.resize(t, 5); x }).collect(), maps });
            }
            _ => {
                sp.push(Space::Product { t, al: k([0, 0, 16, 8, 4, 3, 3, 2, 2]) });
                sp.push(Space::Sweep { t, al: c.clone(), bg: bg[..1].to_vec() });
                let d = dictionary(&repo_dir());
                if thorough {
                    sp.push(Space::Sweep { t, al: d, bg: bg[bg.len() - 1..].to_vec() });
                } else {
                    sp.push(Space::List(d.iter().enumerate().map(|(i, x)| { let mut v = bg[bg.len() - 1].clone(); v[i % t] = *x; v }).collect()));
                }
                sp.push(Space::Sweep { t, al: wide(if thorough { 1000 } else { 120 }, thorough).into_iter().take(if thorough { usize::MAX } else { 300 }).collect(), bg: bg[..1].to_vec() });
                let n = if thorough { 4 } else { 1 };
                sp.push(steer(p, false, &c[..n], 1).unwrap());
                sp.push(steer(p, true, &c[..n], 1).unwrap());
                let r = roots();
                sp.push(steer(p, false, &r[..2], 1).unwrap());
                sp.push(steer(p, true, &r[..1], 1).unwrap());
                sp.push(Space::List(related(t, &[p2(150).sub(Fe::from_u64(12345))])));
                sp.push(Space::Patterns { pats: partitions(t.min(if thorough { 8 } else { 6 })).into_iter().map(|mut x| { x.resize(t, 6); x }).collect(), maps });
            }
        }
        for s in &sp {
            for i in 0..s.len() {
                v.push(Question { kind: 1, rate, alpha: 0, v: s.get(i) });
            }
        }
        let base: Vec<Fe> = (0..t).map(|i| Fe::from_u64(i as u64 + 2)).collect();
        for alpha in [0u32, 1, 2, 3, 5, 7, 11, 16, 17, 31] {
            for s in [vec![Fe::zero(); t], vec![Fe::one(); t], base.clone()] {
                v.push(Question { kind: 2, rate, alpha, v: s });
            }
            if size == 2 {
                let s = Space::Product { t, al: c[..2].to_vec() };
                for i in 0..s.len() {
                    v.push(Question { kind: 2, rate, alpha, v: s.get(i) });
                }
            }
        }
    }
    v
}
fn circuit_questions(full: bool) -> Vec<Question> {
    let mut v = vec![];
    let c = core();
    for rate in 1..=7 {
        let t = rate + 1;
        let s = if full { Space::Product { t, al: c[..2].to_vec() } } else { Space::List(vec![vec![Fe::zero(); t], (0..t).map(|i| c[i]).collect()]) };
        for i in 0..s.len().min(16) {
            v.push(Question { kind: 3, rate, alpha: 0, v: s.get(i) });
        }
        v.push(Question { kind: 3, rate, alpha: 0, v: (0..t).map(|i| Fe::from_u64(i as u64 + 2)).collect() });
    }
    v
}

struct Batch {
    q: Vec<Question>,
    input: Vec<u8>,
    answers: Vec<Vec<u8>>,
}
fn batch(run: &Run, m: &Model, q: Vec<Question>) -> Batch {
    let answers: Vec<Mutex<Vec<u8>>> = q.iter().map(|_| Default::default()).collect();
    let _ = run.par(q.len(), |i| {
        *answers[i].lock().unwrap() = q[i].answer(m);
        Ok(())
    });
    let mut input = vec![];
    q.iter().for_each(|x| x.bytes(&mut input));
    Batch { q, input, answers: answers.into_iter().map(|x| x.into_inner().unwrap()).collect() }
}

fn compare(run: &Run, c: &Cfg, b: &Batch, out: &[u8], from: usize) -> Result<(), Bad> {
    let mut o = out;
    for (i, q) in b.q.iter().enumerate().skip(from) {
        let case = || format!("configuration {}: {}", c.name, q.show());
        if o.len() < 4 {
            return Err(bad(case(), "no answer"));
        }
        let n = u32::from_le_bytes(o[..4].try_into().unwrap());
        o = &o[4..];
        if n == u32::MAX {
            return Err(bad(case(), "panicked"));
        }
        let n = n as usize;
        if o.len() < n {
            return Err(bad(case(), "answer cut short"));
        }
        run.count(2 * 39, 2 * 39, 1);
        if o[..n] != b.answers[i][..] {
            let at = o[..n].iter().zip(&b.answers[i]).position(|(x, y)| x != y).unwrap_or(n.min(b.answers[i].len()));
            return Err(bad(case(), format!("the answer ({n} bytes) differs from the reference from byte {at} on: {} instead of {}",
                hex(&o[at / 32 * 32..n.min(at / 32 * 32 + 32)]), hex(&b.answers[i][at / 32 * 32..b.answers[i].len().min(at / 32 * 32 + 32)]))));
        }
        o = &o[n..];
    }
    Ok(())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let run = Run::new("C17");
    let prebuild = std::env::args().nth(2).as_deref() == Some("prebuild");
    let cfgs = configs(run.thorough());
    let mut groups: Vec<String> = vec![];
    for c in &cfgs {
        if !groups.contains(&c.group) {
            groups.push(c.group.clone());
        }
    }
    let m = Model::new();
    run.begin();
    let qs: Vec<Batch> = (0..3)
        .map(|k| batch(&run, &m, if prebuild { vec![] } else { questions(&m, k, run.thorough()) }))
        .collect();
    let cqs: Vec<Batch> = (0..3)
        .map(|k| batch(&run, &m, if prebuild { vec![] } else { circuit_questions(k > 0) }))
        .collect();
    run.end("reference answers");
    for k in 0..3 {
        run.extra(&format!("questions_size_{k}"), (qs[k].q.len() + cqs[k].q.len()).to_string());
        println!("[C17] size {k}: {} questions, {} on circuits", qs[k].q.len(), cqs[k].q.len());
    }
    let next = AtomicUsize::new(0);
    let found: Mutex<Vec<(usize, Bad)>> = Mutex::default();
    let broken: Mutex<Vec<String>> = Mutex::default();
    let log: Mutex<Vec<String>> = Mutex::default();
    let small: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; SMALL.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let g = next.fetch_add(1, Ordering::Relaxed);
                if g >= groups.len() + SMALL.len() {
                    break;
                }
                if g >= groups.len() {
                    let b = build_small(g - groups.len());
                    small.lock().unwrap()[g - groups.len()] = b;
                    continue;
                }
                for (i, c) in cfgs.iter().enumerate().filter(|(_, c)| c.group == groups[g]) {
                    let t0 = std::time::Instant::now();
                    let bin = match build(c) {
                        Ok(b) => b,
                        Err(Fail::Repo(e)) => {
                            found.lock().unwrap().push((i, bad(format!("configuration {}", c.name), format!("does not compile:\n{e}"))));
                            return;
                        }
                        Err(Fail::Harness(e)) => {
                            broken.lock().unwrap().push(format!("{}: {e}", c.name));
                            return;
                        }
                    };
                    let tb = t0.elapsed().as_secs_f64();
                    if prebuild || c.kind == Kind::Thumb {
                        run.count(1, 1, 1);
                        log.lock().unwrap().push(format!("{}: compiled in {tb:.1}s", c.name));
                        continue;
                    }
                    let mut bs = vec![&qs[c.size]];
                    if c.r1cs {
                        bs.push(&cqs[c.size]);
                    }
                    for b in bs {
                        let r = match execute(c, &bin, &b.input) {
                            Ok(o) => compare(&run, c, b, &o, 0),
                            Err(e) => Err(bad(format!("configuration {}", c.name), e)),
                        };
                        if let Err(e) = r {
                            found.lock().unwrap().push((i, e));
                            return;
                        }
                    }
                    let _ = std::fs::remove_file(&bin);
                    log.lock().unwrap().push(format!("{}: built in {tb:.1}s, answered in {:.1}s", c.name, t0.elapsed().as_secs_f64() - tb));
                }
            });
        }
    });
    let mut log = log.into_inner().unwrap();
    log.sort();
    if std::env::var("C17_LOG").is_ok() {
        log.iter().for_each(|l| println!("{l}"));
    }
    log.iter().for_each(|l| run.sample(l.clone()));
    let broken = broken.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|x| x.0);
    if !broken.is_empty() || found.len() == groups.len() {
        // nothing compiles (or cargo does not work): no verdict
        println!("[C17] cannot build: {}", broken.first().cloned().unwrap_or_else(|| found[0].1.detail.clone()));
        std::process::exit(2);
    }
    run.extra("configurations", cfgs.len().to_string());
    run.end(&format!("{} configurations", cfgs.len()));
    run.check(found.into_iter().next().map(|x| Err(x.1)).unwrap_or(Ok(())));
    if prebuild {
        std::process::exit(0);
    }
    for (i, exe) in small.into_inner().unwrap().into_iter().enumerate() {
        let tag = format!("{} [{}]", SMALL[i].0, SMALL[i].1);
        match exe {
            Some(e) => run.small_at(&e, &tag),
            None => {
                println!("[C17] the small-field build is not available for this tree in configuration {tag}: left out");
                run.extra(&format!("small_fields_{i}"), "\"not built\"".into());
            }
        }
    }
    run.assume("the configurations listed are those that can be built and run here: x86_64, wasm32 (32-bit), and compile-only thumbv8m; big-endian targets are not run");
    run.pass()
}

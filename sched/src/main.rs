//! C08: concurrent hashing under every interleaving. The real code (and the standard library under it) is
//! compiled so that every memory access calls the runtime in rt.c; this program is the explorer. Each
//! execution is a fresh process, so that it starts from cold statics; threads run one at a time and
//! are switched at every access to a location that several threads use (one of them writing), at every
//! futex operation and at thread start and end. All schedules up to a preemption bound are explored.
//! Locations that are not in conflict need no switch: all interleavings of such accesses are equivalent.
use mc_circ::{synth, Mode, Scenario};
use mc_core::*;
use refmodel::report::*;
use refmodel::{Fe, Field};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeSet, HashMap};
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn rt_shared() -> *mut Shared;
    fn rt_size(what: i32) -> u64;
    fn rt_run(f: extern "C" fn(*mut std::ffi::c_void, i32), env: *mut std::ffi::c_void);
    fn rt_alloc(size: u64, align: u64) -> *mut u8;
    fn rt_in_arena(p: *mut u8) -> i32;
}
struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = rt_alloc(l.size() as u64, l.align() as u64);
        if p.is_null() { System.alloc(l) } else { p }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_in_arena(p) == 0 {
            System.dealloc(p, l)
        }
    }
    // (memory of an arena is never handed out twice)
}
#[global_allocator]
static A: Arena = Arena;

const MAXDEC: usize = 65536;
const MAXHOT: usize = 16384;
const MAXPAGES: usize = 65536;
#[repr(C)]
#[derive(Clone, Copy)]
struct Decision {
    enabled: u8,
    running: u8,
    chosen: u8,
    kind: u8,
}
#[repr(C)]
struct Shared {
    n_threads: u32,
    n_prefix: u32,
    max_points: u32,
    pad: u32,
    prefix: [u8; MAXDEC],
    n_hot: u32,
    n_pages: u32,
    hot: [u64; MAXHOT],
    pages: [u64; MAXPAGES],
    n_dec: u32,
    status: u32,
    finished: u32,
    n_conf: u32,
    dec: [Decision; MAXDEC],
    conf: [u64; MAXHOT],
    conf_kind: [u8; MAXHOT],
    n_foreign: u32,
    race_found: u32,
    foreign: [u64; MAXPAGES],
    accesses: u64,
    shared_accesses: u64,
    points: u64,
    race_addr: u64,
    race_t: u32,
    race_u: u32,
    race_tw: u32,
    race_uw: u32,
    result: [u8; 65536],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Free,
    Opt,
    Unopt,
    Circuit,
    CircuitConst,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct G(K, usize, usize);
#[derive(Clone, Debug)]
struct Sc {
    warm: Vec<G>,
    threads: Vec<Vec<G>>,
}
fn input(rate: usize, x: usize) -> Vec<Fe> {
    let t = rate + 1;
    let a = mc_circ::generic(t);
    match x {
        0 => a,
        1 => {
            let mut b = a;
            b[t - 1] = b[t - 1].add(Fe::one());
            b
        }
        2 => vec![Fe::zero(); t],
        3 => vec![a[0]; t],
        4 => (0..t).map(|i| Fe::from_u64(i as u64)).collect(),
        5 => a.iter().rev().copied().collect(),
        // zeros, ones or minus ones at the positions of a mask
        _ => {
            let w = [Fe::zero(), Fe::one(), Fe::one().neg()][(x >> 8) - 1];
            (0..t).map(|i| if x >> i & 1 == 1 { w } else { a[i] }).collect()
        }
    }
}
type Out = Result<Vec<Fe>, String>;
fn exec(g: &G) -> Out {
    let v = input(g.1, g.2);
    match g.0 {
        K::Free => hash_guarded(g.1, &v).map(|d| vec![d]),
        K::Opt => perm_guarded(g.1, true, &v).map(|x| x.1),
        K::Unopt => perm_guarded(g.1, false, &v).map(|x| x.1),
        K::Circuit | K::CircuitConst => {
            let m = if g.0 == K::Circuit { Mode::Witness } else { Mode::Const };
            let r = synth(&Scenario::single(&vec![m; g.1 + 1], &v, 0), false)?;
            let d = r.digests[0].ok_or("no digest")?;
            Ok(vec![d, Fe::from_u64(r.cs.num_constraints() as u64)])
        }
    }
}
// ---- results cross the process boundary through the shared page
const SLOT: usize = 320;
struct Env {
    sc: Sc,
    base: *mut u8,
    slots: Vec<usize>,
}
unsafe fn put(base: *mut u8, slot: usize, o: &Out) {
    let p = base.add(slot * SLOT);
    match o {
        Ok(v) => {
            for (i, x) in v.iter().enumerate() {
                for (j, l) in x.limbs().iter().enumerate() {
                    (p.add(8 + i * 32 + j * 8) as *mut u64).write_unaligned(*l);
                }
            }
            p.add(1).write(v.len() as u8);
            p.write(1);
        }
        Err(_) => p.write(2),
    }
}
extern "C" fn body(env: *mut std::ffi::c_void, id: i32) {
    let e = unsafe { &*(env as *const Env) };
    for (k, g) in e.sc.threads[id as usize].iter().enumerate() {
        let o = exec(g);
        unsafe { put(e.base, e.slots[id as usize] + k, &o) };
    }
}
struct Exec {
    dec: Vec<Decision>,
    conf: Vec<(u64, u8)>,
    foreign: Vec<u64>,
    outs: Vec<Vec<Option<Out>>>,
    warm: Vec<Option<Out>>,
    status: u32,
    finished: bool,
    wait: i32,
    race: Option<String>,
    accesses: u64,
    shared: u64,
    points: u64,
}
struct Explorer {
    s: *mut Shared,
}
impl Explorer {
    fn run(&self, sc: &Sc, prefix: &[u8], hot: &BTreeSet<u64>, pages: &BTreeSet<u64>) -> Exec {
        let s = unsafe { &mut *self.s };
        s.n_threads = sc.threads.len() as u32;
        s.n_prefix = prefix.len() as u32;
        s.prefix[..prefix.len()].copy_from_slice(prefix);
        s.max_points = 400_000;
        s.n_hot = hot.len().min(MAXHOT) as u32;
        for (i, h) in hot.iter().take(MAXHOT).enumerate() {
            s.hot[i] = *h;
        }
        s.n_pages = pages.len().min(MAXPAGES) as u32;
        for (i, h) in pages.iter().take(MAXPAGES).enumerate() {
            s.pages[i] = *h;
        }
        s.n_dec = 0;
        s.status = 0;
        s.finished = 0;
        s.n_conf = 0;
        s.n_foreign = 0;
        s.race_found = 0;
        s.accesses = 0;
        s.shared_accesses = 0;
        s.points = 0;
        let mut slots = vec![];
        let mut n = sc.warm.len();
        for t in &sc.threads {
            slots.push(n);
            n += t.len();
        }
        for k in 0..n {
            s.result[k * SLOT] = 0;
        }
        let mut wait = 0;
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::alarm(120);
                let base = (*self.s).result.as_mut_ptr();
                for (k, g) in sc.warm.iter().enumerate() {
                    put(base, k, &exec(g));
                }
                let mut e = Env { sc: sc.clone(), base, slots: slots.clone() };
                rt_run(body, &mut e as *mut Env as *mut std::ffi::c_void);
                libc::_exit(0);
            }
            libc::waitpid(pid, &mut wait, 0);
        }
        let s = unsafe { &*self.s };
        let get = |k: usize| -> Option<Out> {
            let p = &s.result[k * SLOT..(k + 1) * SLOT];
            match p[0] {
                0 => None,
                1 => Some(Ok((0..p[1] as usize)
                    .map(|i| Fe::from_limbs_mod(std::array::from_fn(|j| u64::from_le_bytes(p[8 + i * 32 + j * 8..8 + i * 32 + j * 8 + 8].try_into().unwrap()))))
                    .collect())),
                _ => Some(Err("panicked or failed".into())),
            }
        };
        Exec {
            dec: s.dec[..s.n_dec as usize].to_vec(),
            conf: (0..s.n_conf as usize).map(|i| (s.conf[i], s.conf_kind[i])).collect(),
            foreign: s.foreign[..s.n_foreign as usize].to_vec(),
            outs: sc.threads.iter().enumerate().map(|(t, v)| (0..v.len()).map(|k| get(slots[t] + k)).collect()).collect(),
            warm: (0..sc.warm.len()).map(get).collect(),
            status: s.status,
            finished: s.finished == 1,
            wait,
            race: (s.race_found == 1).then(|| {
                let w = |x: u32| if x == 1 { "writes" } else { "reads" };
                format!("thread {} {} and thread {} {} address {:#x} without synchronization", s.race_t, w(s.race_tw), s.race_u, w(s.race_uw), s.race_addr)
            }),
            accesses: s.accesses,
            shared: s.shared_accesses,
            points: s.points,
        }
    }
}
fn show_sched(d: &[Decision]) -> String {
    // run-length encoded choices
    let mut s = String::new();
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j].chosen == d[i].chosen {
            j += 1;
        }
        s.push_str(&format!("{}x{} ", d[i].chosen, j - i));
        i = j;
    }
    s
}
#[derive(Default)]
struct Stats {
    scenarios: u64,
    executions: u64,
    decisions: u64,
    accesses: u64,
    shared: u64,
    hot: u64,
    incomplete: u64,
    points: u64,
}
fn judge(sc: &Sc, x: &Exec, want: &dyn Fn(&G) -> Vec<Fe>) -> Result<(), Bad> {
    let case = || format!("threads {:?} after {:?}, schedule {}", sc.threads, sc.warm, show_sched(&x.dec));
    for (k, g) in sc.warm.iter().enumerate() {
        let w = want(g);
        if x.warm[k] != Some(Ok(w.clone())) {
            return Err(bad(case(), format!("sequential call {g:?}: {:?}, expected {w:?}", x.warm[k])));
        }
    }
    for (t, v) in sc.threads.iter().enumerate() {
        for (k, g) in v.iter().enumerate() {
            let w = want(g);
            match &x.outs[t][k] {
                Some(Ok(o)) if *o == w => {}
                None => {}
                o => return Err(bad(case(), format!("thread {t} call {k} {g:?}: {o:?}, alone {w:?}"))),
            }
        }
    }
    if x.status == 1 {
        return Err(bad(case(), "deadlock: no thread can go on".to_string()));
    }
    if x.status == 2 {
        return Err(bad(case(), "no progress: the threads spin without end under a fair schedule".to_string()));
    }
    if !x.finished && x.status == 0 {
        return Err(bad(case(), format!("the process ended abnormally (wait status {:#x})", x.wait)));
    }
    Ok(())
}
/// Explore one scenario: preemption bounds 0, 1, .., pb, each completely or until the budget is used up.
fn explore(e: &Explorer, sc: &Sc, pb: u32, max: u64, deadline: Instant, want: &dyn Fn(&G) -> Vec<Fe>, st: &mut Stats) -> Result<(), Bad> {
    let (mut hot, mut pages) = (BTreeSet::new(), BTreeSet::new());
    let mut race: Option<Bad> = None;
    st.scenarios += 1;
    let mut n = 0u64;
    let mut overflow = false;
    'restart: loop {
        for bound in 0..=pb {
            // stack of (prefix, preemptions in it)
            let mut stack: Vec<(Vec<u8>, u32)> = vec![(vec![], 0)];
            let mut any = false;
            while let Some((prefix, used)) = stack.pop() {
                if n >= max || Instant::now() > deadline {
                    st.incomplete += 1;
                    st.hot += hot.len() as u64;
                    return race.map_or(Ok(()), Err);
                }
                let x = e.run(sc, &prefix, &hot, &pages);
                n += 1;
                st.executions += 1;
                st.decisions += x.dec.len() as u64;
                st.accesses += x.accesses;
                st.shared += x.shared;
                st.points += x.points;
                judge(sc, &x, want)?;
                if x.status == 3 {
                    overflow = true;
                }
                if race.is_none() {
                    if let Some(r) = &x.race {
                        race = Some(bad(format!("threads {:?} after {:?}, schedule {}", sc.threads, sc.warm, show_sched(&x.dec)), format!("data race: {r}")));
                    }
                }
                let (h, p) = (hot.len(), pages.len());
                hot.extend(x.conf.iter().filter(|c| c.1 & 3 != 0).map(|c| c.0));
                pages.extend(x.foreign.iter().copied());
                if hot.len() != h || pages.len() != p {
                    if hot.len() > MAXHOT || pages.len() > MAXPAGES || overflow {
                        overflow = true;
                    } else {
                        continue 'restart;
                    }
                }
                // alternatives to every decision after the prefix
                let mut cost = used;
                let mut alts = vec![];
                for (i, d) in x.dec.iter().enumerate() {
                    let preempts = |c: u8| (d.kind & 1 == 1 && c != d.running) as u32;
                    if i >= prefix.len() {
                        for c in 0..8u8 {
                            if d.enabled >> c & 1 == 1 && c != d.chosen {
                                if cost + preempts(c) <= bound {
                                    let mut p: Vec<u8> = x.dec[..i].iter().map(|d| d.chosen).collect();
                                    p.push(c);
                                    alts.push((p, cost + preempts(c)));
                                } else {
                                    any = true;
                                }
                            }
                        }
                        cost += preempts(d.chosen);
                    }
                }
                stack.extend(alts);
            }
            if !any {
                break; // no schedule needs more preemptions
            }
        }
        st.hot += hot.len() as u64;
        if overflow {
            st.incomplete += 1;
        }
        return race.map_or(Ok(()), Err);
    }
}

fn scenarios(th: bool) -> Vec<Sc> {
    let mut v = vec![];
    // one call per thread, every pair of operations, cold
    let mut ops: Vec<G> = vec![];
    for r in 1..=7 {
        ops.push(G(K::Free, r, 0));
    }
    for r in 1..=7 {
        ops.push(G(K::Free, r, 1));
    }
    for r in 1..=7 {
        ops.push(G(K::Opt, r, 0));
        ops.push(G(K::Unopt, r, 0));
    }
    for r in if th { 1..=7 } else { 1..=2 } {
        ops.push(G(K::Circuit, r, 0));
        ops.push(G(K::CircuitConst, r, 0));
    }
    for i in 0..ops.len() {
        for j in i..ops.len() {
            v.push(Sc { warm: vec![], threads: vec![vec![ops[i]], vec![ops[j]]] });
        }
    }
    for r in 1..=7 {
        let f = |x| G(K::Free, r, x);
        // after a warm-up call
        for (a, b, c) in [(0, 0, 1), (0, 1, 2), (0, 0, 0), (0, 1, 1)] {
            v.push(Sc { warm: vec![f(a)], threads: vec![vec![f(b)], vec![f(c)]] });
            v.push(Sc { warm: vec![f(a)], threads: vec![vec![G(K::Unopt, r, b)], vec![f(c)]] });
            v.push(Sc { warm: vec![G(K::Unopt, r, a)], threads: vec![vec![G(K::Opt, r, b)], vec![G(K::Unopt, r, c)]] });
        }
        // two calls per thread
        for k in 0..if th { 81 } else { 16 } {
            let w = refmodel::space::word(k, if th { 3 } else { 2 }, 4);
            v.push(Sc { warm: vec![], threads: vec![vec![f(w[0]), f(w[1])], vec![f(w[2]), f(w[3])]] });
        }
        let o = |k, x| G(k, r, x);
        v.push(Sc { warm: vec![], threads: vec![vec![o(K::Unopt, 0), o(K::Opt, 1)], vec![o(K::Opt, 0), o(K::Unopt, 1)]] });
        // three threads
        for k in [[0, 0, 0], [0, 0, 1], [0, 1, 2]] {
            v.push(Sc { warm: vec![], threads: k.iter().map(|x| vec![f(*x)]).collect() });
        }
        v.push(Sc { warm: vec![], threads: vec![vec![f(0)], vec![o(K::Unopt, 1)], vec![o(K::Opt, 2)]] });
        // special values in both threads, cold and after a call with other words
        let mut xs = vec![2, 3, 4, 5];
        for k in 1..=3 {
            xs.extend((1..1usize << (r + 1)).map(|m| k << 8 | m));
        }
        for (i, x) in xs.iter().enumerate() {
            v.push(Sc { warm: vec![], threads: vec![vec![f(*x)], vec![f(*x)]] });
            v.push(Sc { warm: vec![f(0)], threads: vec![vec![f(*x)], vec![f(1)]] });
            v.push(Sc { warm: vec![f(*x)], threads: vec![vec![f(0)], vec![f(*x)]] });
            let y = xs[(i + 1) % xs.len()];
            v.push(Sc { warm: vec![], threads: vec![vec![f(*x), f(y)], vec![f(y), f(*x)]] });
            v.push(Sc { warm: vec![], threads: vec![vec![o(K::Opt, *x)], vec![o(K::Opt, *x)]] });
            v.push(Sc { warm: vec![], threads: vec![vec![o(K::Unopt, *x)], vec![o(K::Unopt, *x)]] });
            v.push(Sc { warm: vec![], threads: vec![vec![o(K::Unopt, *x)], vec![o(K::Opt, *x)]] });
        }
        let all = (1 << (r + 1)) - 1;
        let special = [2, 3, 4, 1 << 8 | 1, 1 << 8 | (all - 1), 2 << 8 | all, 2 << 8 | (all - 1), 3 << 8 | all];
        for a in 0..special.len() {
            for b in a..special.len() {
                v.push(Sc { warm: vec![], threads: vec![vec![f(special[a])], vec![f(special[b])]] });
            }
            if r <= 2 || th {
                for k in [K::Circuit, K::CircuitConst] {
                    v.push(Sc { warm: vec![], threads: vec![vec![o(k, special[a])], vec![o(k, special[a])]] });
                }
            }
            for p in r + 1..=7 {
                v.push(Sc { warm: vec![], threads: vec![vec![f(2)], vec![G(K::Free, p, [2, 3, 4][a % 3])]] });
            }
        }
        let q = if r == 7 { 1 } else { r + 1 };
        v.push(Sc { warm: vec![], threads: vec![vec![f(0), G(K::Free, q, 0)], vec![G(K::Free, q, 1), f(1)]] });
        v.push(Sc { warm: vec![], threads: vec![vec![f(0)], vec![G(K::Free, q, 0)], vec![G(K::Free, (q % 7) + 1, 0)]] });
    }
    v
}
fn worker(shard: usize, n: usize, th: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let e = Explorer { s: unsafe { rt_shared() } };
    let m = Model::new();
    // constraint counts of the circuits come from a separate process that runs nothing else
    let mut memo: HashMap<G, Vec<Fe>> = HashMap::new();
    let all = scenarios(th);
    for sc in &all {
        for g in sc.warm.iter().chain(sc.threads.iter().flatten()) {
            if memo.contains_key(g) {
                continue;
            }
            let w = m.words(g.1, &input(g.1, g.2));
            let v = match g.0 {
                K::Free => vec![w[1]],
                K::Opt | K::Unopt => w,
                K::Circuit | K::CircuitConst => {
                    let x = e.run(&Sc { warm: vec![*g], threads: vec![vec![]] }, &[], &BTreeSet::new(), &BTreeSet::new());
                    let n = match &x.warm[0] {
                        Some(Ok(v)) => v[1],
                        _ => Fe::zero(),
                    };
                    vec![w[1], n]
                }
            };
            memo.insert(*g, v);
        }
    }
    let want = |g: &G| memo[g].clone();
    let mut st = Stats::default();
    let mut err = None;
    // a few schedules of every scenario, then those that have more
    let mut rest = vec![];
    let t0 = Instant::now();
    let limit = |s: u64| t0 + Duration::from_secs(s);
    for (i, sc) in all.iter().enumerate() {
        if i % n == shard {
            let before = st.incomplete;
            if let Err(b) = explore(&e, sc, if th { 4 } else { 2 }, 60, limit(if th { 1200 } else { 200 }), &want, &mut st) {
                err = Some(b);
                break;
            }
            if st.incomplete > before {
                rest.push(i);
            }
        }
    }
    for i in rest {
        if err.is_some() {
            break;
        }
        st.incomplete -= 1;
        st.scenarios -= 1;
        if let Err(b) = explore(&e, &all[i], if th { 4 } else { 2 }, if th { 200_000 } else { 2500 }, limit(if th { 4800 } else { 400 }), &want, &mut st) {
            err = Some(b);
        }
    }
    let mut out = std::io::stdout().lock();
    match err {
        Some(b) => writeln!(out, "BAD\n{}\n{}", b.case.replace('\n', " "), b.detail).unwrap(),
        None => writeln!(out, "OK {} {} {} {} {} {} {} {}", st.scenarios, st.executions, st.decisions, st.accesses, st.shared, st.hot, st.incomplete, st.points).unwrap(),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        assert_eq!(rt_size(0) as usize, std::mem::size_of::<Shared>());
        assert_eq!((rt_size(1) as usize, rt_size(2) as usize, rt_size(3) as usize), (MAXDEC, MAXHOT, MAXPAGES));
    }
    if a.get(1).map(|x| x == "--worker").unwrap_or(false) {
        return worker(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "thorough");
    }
    let run = Run::new("C08");
    let th = run.thorough();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let exe = std::env::current_exe().expect("own path");
    run.begin();
    let kids: Vec<_> = (0..n)
        .map(|i| Command::new(&exe).args(["--worker", &i.to_string(), &n.to_string(), &run.tier]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker"))
        .collect();
    let mut tot = [0u64; 8];
    let mut first: Option<Bad> = None;
    for (i, k) in kids.into_iter().enumerate() {
        let out = k.wait_with_output().expect("worker output");
        let s = String::from_utf8_lossy(&out.stdout).to_string();
        let mut l = s.lines();
        match l.next() {
            Some(h) if h.starts_with("OK ") => {
                for (j, x) in h[3..].split(' ').enumerate() {
                    tot[j] += x.parse::<u64>().unwrap();
                }
            }
            Some("BAD") => {
                let case = l.next().unwrap_or("").to_string();
                let d = l.collect::<Vec<_>>().join("\n");
                first.get_or_insert(bad(case, d));
            }
            _ => {
                eprintln!("worker {i} failed: {:?}", out.status);
                std::process::exit(2);
            }
        }
    }
    run.count(tot[7], tot[3], tot[1]);
    run.end(&format!("{} thread scenarios", tot[0]));
    run.sample("2 threads, cold: hash_3(x0) || hash_3(x1), every schedule with at most the preemption bound");
    run.sample("warm hash_2(x0), then unoptimized rate-2 permutation || hash_2(x1)");
    run.extra("scenarios", tot[0].to_string());
    run.extra("schedules", tot[1].to_string());
    run.extra("decisions", tot[2].to_string());
    run.extra("memory_accesses_observed", tot[3].to_string());
    run.extra("accesses_outside_private_memory", tot[4].to_string());
    run.extra("conflicting_locations", tot[5].to_string());
    run.extra("scenarios_cut_by_budget", tot[6].to_string());
    run.extra("preemption_bound", if th { "4" } else { "2" }.to_string());
    if tot[6] > 0 {
        run.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
    }
    println!("[C08] {} conflicting locations, {} scenarios cut by the budget", tot[5], tot[6]);
    if let Some(b) = first {
        run.violation(&b);
    }
    run.assume("sequentially consistent interleavings; data races are reported instead of explored under weaker memory models");
    run.pass()
}

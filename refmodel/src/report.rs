//! Evidence files, VIOLATION lines, and an exhaustive parallel driver.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A property violation: what was run, what was expected, what came out.
#[derive(Clone, Debug)]
pub struct Bad {
    /// One line that identifies the failing case, used for known findings and replay.
    pub case: String,
    pub detail: String,
}
pub fn bad(case: impl Into<String>, detail: impl Into<String>) -> Bad {
    Bad { case: case.into(), detail: detail.into() }
}

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    parts: Mutex<Vec<(String, u64, f64)>>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<Vec<(String, String)>>,
    pub exhaustive: AtomicBool,
    part_t0: Mutex<(Instant, u64)>,
    /// Part of another check, which collects what is printed.
    sub: bool,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn repo_dir() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

impl Run {
    pub fn new(prop: &str) -> Run {
        crate::field::self_check();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = std::env::args().nth(1).filter(|a| a == "quick" || a == "thorough").unwrap_or(tier);
        // expected panics of the code under test are part of the exploration; keep the log readable
        if std::env::var_os("MC_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Run {
            prop: prop.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            parts: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            extra: Mutex::new(vec![]),
            exhaustive: AtomicBool::new(true),
            part_t0: Mutex::new((Instant::now(), 0)),
            sub: std::env::var("MC_SUB").is_ok(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn count(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.transitions.fetch_add(transitions, Ordering::Relaxed);
        self.traces.fetch_add(traces, Ordering::Relaxed);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(s.into());
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// Additional coverage entry; `json` must be valid JSON.
    pub fn extra(&self, k: &str, json: String) {
        self.extra.lock().unwrap().push((k.into(), json));
    }
    pub fn begin(&self) {
        *self.part_t0.lock().unwrap() = (Instant::now(), self.traces.load(Ordering::Relaxed));
    }
    /// Close a named part of the exploration.
    pub fn end(&self, name: &str) {
        let (t, n) = *self.part_t0.lock().unwrap();
        let d = self.traces.load(Ordering::Relaxed) - n;
        let s = t.elapsed().as_secs_f64();
        if self.sub {
            println!("PART\t{d}\t{s:.3}\t{name}");
        } else {
            println!("[{}] {:<44} {:>10} executions {:>8.2}s", self.prop, name, d, s);
        }
        self.parts.lock().unwrap().push((name.into(), d, s));
        self.begin();
    }
    fn evidence(&self, violations: u64) {
        let mut c = String::new();
        c.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{}",
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.exhaustive.load(Ordering::Relaxed)
        ));
        let parts: Vec<String> = self
            .parts
            .lock()
            .unwrap()
            .iter()
            .map(|(n, d, s)| format!("{{\"part\":{},\"executions\":{},\"wall_s\":{:.3}}}", esc(n), d, s))
            .collect();
        c.push_str(&format!(",\"parts\":[{}]", parts.join(",")));
        let smp: Vec<String> = self.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
        c.push_str(&format!(",\"samples\":[{}]", smp.join(",")));
        for (k, v) in self.extra.lock().unwrap().iter() {
            c.push_str(&format!(",{}:{}", esc(k), v));
        }
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| esc(s)).collect();
        let s = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            esc(&self.prop), esc(&self.tier), self.seed, c, a.join(","), self.t0.elapsed().as_secs_f64(), violations
        );
        let dir = format!("{}/evidence", verif_dir());
        std::fs::create_dir_all(&dir).expect("evidence directory");
        std::fs::write(format!("{dir}/{}.json", self.prop), s).expect("evidence file");
    }
    /// Report a violation and stop.
    pub fn violation(&self, b: &Bad) -> ! {
        if self.sub {
            println!("BAD\t{}\t{}", b.case.replace(['\t', '\n'], " "), b.detail.replace('\t', " ").replace('\n', " | "));
            std::process::exit(1);
        }
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).expect("replay directory");
        let path = format!("{dir}/{}.txt", self.prop);
        std::fs::write(&path, format!("property={}\ncase={}\n\n{}\n", self.prop, b.case, b.detail))
            .expect("replay file");
        println!("[{}] case: {}", self.prop, b.case);
        println!("[{}] {}", self.prop, b.detail);
        self.evidence(1);
        println!("VIOLATION property={} replay={}", self.prop, path);
        std::process::exit(1);
    }
    pub fn check(&self, r: Result<(), Bad>) {
        if let Err(b) = r {
            self.violation(&b)
        }
    }
    pub fn pass(&self) -> ! {
        if self.sub {
            for x in self.samples.lock().unwrap().iter() {
                println!("SAMPLE\t{}", x.replace(['\t', '\n'], " "));
            }
            let g = |a: &AtomicU64| a.load(Ordering::Relaxed);
            println!("TOTAL\t{}\t{}\t{}", g(&self.states), g(&self.transitions), g(&self.traces));
            std::process::exit(0);
        }
        self.evidence(0);
        println!(
            "[{}] held on everything explored: {} states, {} transitions, {} executions of the implementation, {:.1}s",
            self.prop,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.t0.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
    /// The same property on complete state spaces over small fields: ../small, a build of the code under
    /// test on a stand-in for the field type.
    pub fn small(&self) {
        match std::env::var("MC_SMALL") {
            Ok(e) if !e.is_empty() => self.small_at(&e, ""),
            _ => {
                println!("[{}] the small-field build is not available for this tree: that part is left out", self.prop);
                self.extra("small_fields", "\"not built\"".into());
            }
        }
    }
    pub fn small_at(&self, exe: &str, tag: &str) {
        let tag = if tag.is_empty() { String::new() } else { format!("{tag}: ") };
        let o = std::process::Command::new(&exe)
            .args([&self.prop, &self.tier])
            .env("MC_SUB", "1")
            .output()
            .expect("small-field exploration");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut total = false;
        for l in text.lines() {
            let w: Vec<&str> = l.split('\t').collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap_or(0);
            match w[0] {
                "PART" => {
                    println!("[{}] {tag}{:<44} {:>10} executions {:>8}s", self.prop, w[3], w[1], w[2]);
                    self.parts.lock().unwrap().push((format!("{tag}{}", w[3]), n(1), w[2].parse().unwrap_or(0.0)));
                }
                "SAMPLE" => self.sample(w[1]),
                "TOTAL" => {
                    total = true;
                    self.count(n(1), n(2), n(3));
                }
                "BAD" => self.violation(&bad(format!("{tag}small field: {}", w[1]), w[2])),
                _ => {}
            }
        }
        if !total {
            use std::os::unix::process::ExitStatusExt;
            if o.status.signal() == Some(6) || o.status.signal() == Some(11) {
                self.violation(&bad(format!("{tag}small field exploration"), format!("the process died: {}", o.status)));
            }
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
            eprintln!("small-field exploration failed: {}", o.status);
            std::process::exit(2);
        }
        self.assume("the small-field part replaces decaf377's field type by integers modulo a small prime (poseidon crates unchanged)");
    }
    /// Run `f(i)` for every i in 0..n on all cores. The violation with the smallest index found is
    /// returned; nothing is skipped unless a violation was found.
    pub fn par<F>(&self, n: usize, f: F) -> Result<(), Bad>
    where
        F: Fn(usize) -> Result<(), Bad> + Sync,
    {
        let next = AtomicUsize::new(0);
        let stop = AtomicUsize::new(usize::MAX);
        let found: Mutex<Option<(usize, Bad)>> = Mutex::new(None);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        let chunk = (n / (threads * 128)).clamp(1, 64);
        std::thread::scope(|s| {
            for _ in 0..threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if i >= stop.load(Ordering::Relaxed) {
                                return;
                            }
                            if let Err(b) = f(i) {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                    *g = Some((i, b));
                                    stop.fetch_min(i, Ordering::Relaxed);
                                }
                                return;
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        match found.into_inner().unwrap() {
            Some((_, b)) => Err(b),
            None => Ok(()),
        }
    }
}

/// Run code under test, turning a panic into a message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

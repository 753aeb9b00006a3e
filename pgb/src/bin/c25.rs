//! C25: emitted parameter code denotes the parameters it was emitted for. Every enumerated batch of
//! parameter sets is emitted by the repository's code; what comes out is compiled and run, and every field
//! of the values it denotes is compared with the original.
use ark_ff::PrimeField;
use mc_pgb::{dump::dump, fields::*, poseidon_build, read, v1};
use num_bigint::BigUint;
use poseidon_parameters::v1::*;
use refmodel::report::*;
use std::path::PathBuf;
use std::process::Command;

const BINS: usize = 8;

#[derive(Clone, Debug)]
struct Shape {
    m: usize,
    t: usize,
    rf: usize,
    rp: usize,
    alpha: Option<u32>,
}
#[derive(Clone, Copy, Debug)]
enum Content {
    /// all words distinct, of all lengths up to the modulus
    Distinct,
    /// zero, one, the largest word, powers of two and of ten and their neighbours, from an offset on
    Boundary(usize),
    Same(i64),
    /// the digits of the number to a base, as words of a palette, from the start in every matrix
    Pattern { base: usize, number: usize, palette: usize },
    /// this word and those after it
    From(u64),
}
const PALETTES: &[&[i64]] = &[&[4, 9, 0], &[0, 1, -1], &[10, 100, 1], &[-2, -1, 11]];
#[derive(Clone)]
struct Batch {
    field: usize,
    allow: bool,
    content: Content,
    shapes: Vec<Shape>,
}

fn words<F: PrimeField>(c: Content) -> impl FnMut(usize) -> F {
    let p: BigUint = F::MODULUS.into();
    let one = BigUint::from(1u32);
    let mut edge: Vec<BigUint> = vec![];
    let bits = if let Content::Boundary(_) = c { p.bits() as usize + 1 } else { 0 };
    for e in 0..bits {
        if e % 32 == 0 || e % 32 == 31 || e < 4 {
            let b = &one << e;
            edge.extend([&b - &one, b.clone(), &b + &one].iter().cloned());
        }
    }
    let mut d = one.clone();
    while bits > 0 && d < p {
        edge.push(&d - &one);
        edge.push(d.clone());
        d *= 10u32;
    }
    edge.extend([&p - &one, (&p - &one) >> 1, (&p + &one) >> 1].iter().cloned());
    edge.retain(|x| *x < p);
    edge.sort();
    edge.dedup();
    let mut i = 0usize;
    let k: BigUint = (&p * 618u32) / 1000u32 + &one;
    let small = |v: i64| if v < 0 { -F::from((-v) as u64) } else { F::from(v as u64) };
    move |at| {
        i += 1;
        F::from(match c {
            Content::Distinct => ((&k * i as u64) % &p) >> (i % 5 * p.bits() as usize / 7),
            Content::Boundary(o) => edge[(i + o) % edge.len()].clone(),
            Content::Same(v) => return small(v),
            Content::From(v) => return F::from(v) + F::from(i as u64),
            Content::Pattern { base, number, palette } => return small(PALETTES[palette][number / base.checked_pow(at as u32).unwrap_or(usize::MAX) % base]),
        })
    }
}
fn set<F: PrimeField>(s: &Shape, c: Content) -> PoseidonParameters<F> {
    let mut w = words::<F>(c);
    let mut m = |r: usize, c: usize| Matrix { elements: (0..r * c).map(|i| w(i)).collect(), n_rows: r, n_cols: c };
    let (t, n) = (s.t, s.rf + s.rp);
    let (arc, mds, oarc) = (m(n, t), m(t, t), m(n, t));
    let (mh, v, ww, mp, mdp, mi, mhi) = (m(t - 1, t - 1), m(1, t - 1), m(t - 1, 1), m(t, t), m(t, t), m(t, t), m(t - 1, t - 1));
    let (m00, m_i) = (m(1, 1).elements[0], m(t, t));
    let vc = (0..s.rp).map(|_| m(1, t - 1)).collect();
    let wc = (0..s.rp).map(|_| m(t - 1, 1)).collect();
    PoseidonParameters {
        M: s.m,
        t,
        arc: ArcMatrix(arc),
        mds: MdsMatrix(SquareMatrix(mds)),
        alpha: s.alpha.map(Alpha::Exponent).unwrap_or(Alpha::Inverse),
        rounds: RoundNumbers { r_F: s.rf, r_P: s.rp },
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix(mh),
            v,
            w: ww,
            M_prime: SquareMatrix(mp),
            M_doubleprime: SquareMatrix(mdp),
            M_inverse: SquareMatrix(mi),
            M_hat_inverse: SquareMatrix(mhi),
            M_00: m00,
            M_i: m_i,
            v_collection: vc,
            w_hat_collection: wc,
        },
        optimized_arc: OptimizedArcMatrix(ArcMatrix(oarc)),
    }
}
/// Emitted code, and per width the lines of the original.
fn emit<F: PrimeField>(b: &Batch) -> Result<(String, Vec<(usize, Vec<String>)>), String> {
    let sets: Vec<PoseidonParameters<F>> = b.shapes.iter().map(|s| set(s, b.content)).collect();
    let want = sets.iter().map(|s| (s.t, dump(s))).collect();
    let ts: Vec<usize> = sets.iter().map(|s| s.t).collect();
    let m = sets[0].M;
    v1::ANSWERS.with(|a| *a.borrow_mut() = Some(Box::new(v1::Answers { sets, allow_inverse: b.allow })));
    let text = guard(|| poseidon_build::v1_compile::<F>(m, ts, F::MODULUS, b.allow))?;
    Ok((text, want))
}
macro_rules! fields {
    ($($i:literal $t:ty),*) => {
        fn emit_at(b: &Batch) -> Result<(String, Vec<(usize, Vec<String>)>), String> {
            match b.field {
                $($i => emit::<$t>(b),)*
                _ => unreachable!(),
            }
        }
        fn modulus_of(field: usize) -> BigUint {
            match field {
                $($i => <$t>::MODULUS.into(),)*
                _ => unreachable!(),
            }
        }
        const FIELDS: &[&str] = &[$(stringify!($t)),*];
    };
}
fields! {
    0 F4<0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556>,
    1 F1<11>, // arkworks does not read decimals below modulus 11
    2 F1<0xffffffff00000001>,
    3 F2<0xffffffffffffff61, 0xffffffffffffffff>,
    4 F6<0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x1ae3a4617c510ea>,
    5 F1<2013265921>
}

/// Batches whose emitted code is evaluated by the small reader alone, where it can be.
fn many(thorough: bool) -> Vec<Batch> {
    let mut v = vec![];
    let sh = |t, rf, rp| Shape { m: 128, t, rf, rp, alpha: Some(17) };
    let one = |field, content, s: Shape| Batch { field, allow: true, content, shapes: vec![s] };
    for palette in 0..PALETTES.len() {
        for (base, t, rf, rp, len) in [(2, 2, 2, 1, 6), (3, 2, 2, 2, 8), (2, 3, 2, 1, 9), (3, 3, 2, 2, if thorough { 12 } else { 9 }), (2, 4, 2, 2, if thorough { 16 } else { 14 })].iter() {
            for number in 0..usize::pow(*base, *len) {
                v.push(one(if palette % 2 == 0 { 0 } else { 5 }, Content::Pattern { base: *base, number, palette }, sh(*t, *rf, *rp)));
            }
        }
    }
    // words in a row, from everywhere a decimal grows or a limb ends
    for f in [0, 2, 3, 4].iter() {
        for n in (0..if thorough { 1 << 21 } else { 1 << 18 }).step_by(24) {
            v.push(one(*f, Content::From(n), sh(2, 2, 1)));
        }
        for e in 3..64 {
            v.push(one(*f, Content::From((1u64 << e).wrapping_sub(20)), sh(2, 2, 1)));
        }
        for o in 0..(if thorough { 400 } else { 120 }) {
            v.push(one(*f, Content::Boundary(o), sh(3, 2, 1)));
        }
    }
    for rf in 0..=(if thorough { 100 } else { 30 }) {
        for rp in 1..=(if thorough { 120 } else { 60 }) {
            v.push(one(5, Content::Distinct, sh(2, rf, rp)));
        }
    }
    for a in 0..(if thorough { 1u32 << 18 } else { 1 << 15 }) {
        for x in [a, u32::MAX - a].iter() {
            v.push(one(1, Content::Same(3), Shape { m: 128, t: 2, rf: 0, rp: 1, alpha: Some(*x) }));
        }
    }
    for m in 0..=4096usize {
        v.push(one(1, Content::Same(3), Shape { m, t: 2, rf: 0, rp: 1, alpha: None }));
    }
    v
}
fn batches(thorough: bool) -> Vec<Batch> {
    let mut v = vec![];
    let sh = |t, rf, rp| Shape { m: 128, t, rf, rp, alpha: Some(17) };
    let mut add = |field, allow, content, shapes: Vec<Shape>| v.push(Batch { field, allow, content, shapes });
    use Content::*;
    // all widths of the shipped sets, alone
    for t in 2..=8 {
        for (rf, rp) in [(2, 1), (2, 2), (4, 3)].iter() {
            add(0, true, Distinct, vec![sh(t, *rf, *rp)]);
        }
    }
    // the whole list in both orders
    add(0, true, Distinct, (2..=8).map(|t| sh(t, 2, 1)).collect());
    add(0, true, Distinct, (2..=8).rev().map(|t| sh(t, 2, 1)).collect());
    // all lists of two or three of the widths 2 to 4, each width with its own round numbers
    for a in 2..=4usize {
        for b in (2..=4).filter(|b| *b != a) {
            add(0, true, Distinct, vec![sh(a, 2, a), sh(b, 4, b)]);
            add(0, false, Distinct, vec![sh(a, 2, a), sh(b, 4, 1), sh(9 - a - b, 6, 2)]);
        }
    }
    // every field, contents and widths
    for f in 0..FIELDS.len() {
        for t in 2..=8 {
            add(f, f % 2 == 0, Distinct, vec![sh(t, 2, 2)]);
            for o in 0..(if thorough { 12 } else { 1 }) {
                add(f, true, Boundary(o * 23), vec![sh(t, 4, 2)]);
            }
            for x in [0, 1, -1, 6, 10].iter() {
                add(f, true, Same(*x), vec![sh(t, 2, 1)]);
            }
        }
    }
    // round numbers
    for (rf, rp) in [(0, 1), (2, 9), (2, 10), (8, 31), (10, 3), (12, 1), (98, 1), (2, 399)].iter() {
        add(5, true, Distinct, vec![sh(2, *rf, *rp)]);
    }
    for rf in 0..=8 {
        for rp in 1..=(if thorough { 40 } else { 12 }) {
            add(1, true, Distinct, vec![sh(2, rf, rp)]);
        }
    }
    // exponents and the inverse, levels
    let mut al: Vec<Option<u32>> = (0..=33).map(Some).collect();
    al.extend((5..32).map(|b| Some(1u32 << b)));
    al.extend([Some(257), Some(65537), Some(i32::MAX as u32), Some(u32::MAX - 1), Some(u32::MAX), None].iter());
    for (i, a) in al.iter().enumerate() {
        add(1, i % 2 == 0, Same(3), vec![Shape { m: 128, t: 2, rf: 2, rp: 1, alpha: *a }]);
    }
    for m in [0, 1, 2, 64, 80, 100, 127, 128, 129, 192, 255, 256, 257, 1000, 65536, 1 << 32, usize::MAX].iter() {
        for (i, a) in [Some(5), None].iter().enumerate() {
            add(1, i % 2 == 0, Same(2), vec![Shape { m: *m, t: 2, rf: 2, rp: 1, alpha: *a }]);
        }
    }
    v
}

fn label(b: &Batch) -> String {
    format!("{} over {}, inverse {}, contents {:?}", b.shapes.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" then "), FIELDS[b.field], if b.allow { "allowed" } else { "not allowed" }, b.content)
}
/// What the reader makes of the emitted code: the lines of every function, if it understands all of it.
fn understood(b: &Batch, text: &str) -> Option<Vec<(String, Vec<String>)>> {
    read::read(text, &modulus_of(b.field))
}
fn compare(name: &str, t: usize, got: &[String], want: &[String]) -> Result<(), Bad> {
    let case = format!("width {} of {}", t, name);
    for (a, b) in got.iter().zip(want) {
        if a != b {
            return Err(bad(case, format!("emitted: {}\ngiven:   {}", a, b)));
        }
    }
    if got.len() != want.len() {
        return Err(bad(case, format!("{} fields instead of {}", got.len(), want.len())));
    }
    Ok(())
}
fn main() {
    let run = Run::new("C25");
    let mut bs = batches(run.thorough());
    // Enumerations too large to compile. Code that the reader does not understand, or understands to be
    // something else, is left to the compiler below.
    let ms = many(run.thorough());
    let odd = std::sync::Mutex::new(vec![]);
    run.begin();
    run.check(run.par(ms.len(), |i| {
        let b = &ms[i];
        let (text, w) = emit_at(b).map_err(|e| bad(label(b), format!("emission failed: {}", e)))?;
        let same = match understood(b, &text) {
            None => false,
            Some(g) => g.len() == w.len() && g.iter().zip(&w).all(|(g, w)| g.0 == format!("rate_{}", w.0 - 1) && g.1 == w.1),
        };
        if !same {
            odd.lock().unwrap().push((text.len(), i));
        }
        run.count(w.len() as u64, w.iter().map(|x| x.1.len() as u64).sum(), 1);
        Ok(())
    }));
    run.end("sets emitted and read back");
    let mut odd = odd.into_inner().unwrap();
    odd.sort();
    let left_out = odd.len().saturating_sub(150);
    if left_out > 0 {
        println!("[C25] {} sets whose code the reader does not evaluate to the original: {} of them are compiled", odd.len(), odd.len() - left_out);
        run.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
    }
    let n = odd.len();
    bs.extend(odd.into_iter().enumerate().filter(|(k, _)| n <= 150 || *k < 75 || *k % (n / 75 + 1) == 0).map(|x| ms[(x.1).1].clone()));
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif));
    let dir = PathBuf::from(format!("{}/c25-eval", target));
    let _ = std::fs::remove_dir_all(dir.join("src"));
    std::fs::create_dir_all(dir.join("src/bin")).unwrap();
    run.begin();
    let mut want = vec![];
    let mut read_back = vec![];
    let mut agreed = 0;
    let mut mains = vec![String::new(); BINS];
    let mut texts = vec![];
    let mut size = vec![0usize; BINS];
    for (i, b) in bs.iter().enumerate() {
        let name = label(b);
        let (text, w) = emit_at(b).unwrap_or_else(|e| run.violation(&bad(&name, format!("emission failed: {}", e))));
        // the same call again, in a process that has emitted other sets meanwhile
        if emit_at(b).map(|x| x.0).as_ref() != Ok(&text) {
            run.violation(&bad(&name, "the same call emits other code the second time"));
        }
        let k = (0..BINS).min_by_key(|k| size[*k]).unwrap();
        size[k] += text.len();
        std::fs::write(dir.join(format!("src/set{}.rs", i)), &text).unwrap();
        let calls: String = w.iter().map(|(t, _)| format!("    show({}, {}, &set{}::rate_{}::<Q{}>());\n", i, t, i, t - 1, b.field)).collect();
        mains[k] += &format!("#[path = \"../set{}.rs\"]\nmod set{};\nfn run{}() {{\n{}}}\n", i, i, i, calls);
        texts.push((k, i));
        run.count(w.len() as u64, w.iter().map(|x| x.1.len() as u64).sum(), 2);
        read_back.push(understood(b, &text));
        want.push((name, w));
    }
    run.end("batches emitted");
    let types: String = FIELDS.iter().enumerate().map(|(i, f)| format!("#[allow(dead_code)]\ntype Q{} = {};\n", i, f)).collect();
    for (k, m) in mains.iter().enumerate() {
        let calls: String = texts.iter().filter(|x| x.0 == k).map(|x| format!("    run{}();\n", x.1)).collect();
        let main = format!(
            "#![allow(non_snake_case, unused_imports, dead_code, missing_docs)]\n#[path = \"{v}/pgf/src/fields.rs\"]\nmod fields;\n#[path = \"{v}/pgb/src/dump.rs\"]\nmod dump;\nmod types {{\nuse crate::fields::*;\n{types}}}\nuse types::*;\n\
             fn show<F: ark_ff::PrimeField>(i: usize, t: usize, s: &poseidon_parameters::v1::PoseidonParameters<F>) {{\n    println!(\"SET {{}} {{}}\", i, t);\n    for l in dump::dump(s) {{ println!(\"{{}}\", l); }}\n}}\n{m}\
             fn main() {{\n{calls}    println!(\"END\");\n}}\n",
            v = verif, types = types.replace("\ntype", "\npub type"), m = m, calls = calls
        );
        std::fs::write(dir.join(format!("src/bin/e{}.rs", k)), main).unwrap();
    }
    let deps = std::fs::read_to_string(format!("{}/pgb/eval.toml", verif)).unwrap().replace("@VERIF@", &verif);
    std::fs::write(dir.join("Cargo.toml"), deps).unwrap();
    let lock = std::fs::read_to_string(format!("{}/pgb/Cargo.lock", verif)).unwrap().replace("\"mc-pgb\"", "\"mc-pgb-eval\"");
    std::fs::write(dir.join("Cargo.lock"), lock).unwrap();
    let o = Command::new("cargo").args(["build", "--offline", "--release", "-q", "--keep-going"]).current_dir(&dir).env("CARGO_TARGET_DIR", &target).output().expect("cargo");
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        // an error in a set's file is the emission's; anything else is this check's own
        let l: Vec<&str> = e.lines().collect();
        let at = l.iter().position(|x| x.starts_with("error"));
        let hit = l.iter().position(|x| x.contains("--> src/set") || x.contains("set") && x.contains("-->"));
        if let (Some(a), Some(h)) = (at, hit) {
            let i: Option<usize> = l[h].split("set").nth(1).and_then(|x| x.split('.').next()).and_then(|x| x.parse().ok());
            let name = i.and_then(|i| want.get(i)).map(|x| x.0.clone()).unwrap_or_default();
            run.violation(&bad(name, format!("the emitted code does not compile: {}\n{}", l[a], l[h.saturating_sub(1)..(h + 8).min(l.len())].join("\n"))));
        }
        // calls into sets that lack the function
        if let Some(h) = l.iter().find(|x| x.contains("cannot find function `rate_") || x.contains("rate_")) {
            run.violation(&bad("emitted functions", format!("a function is missing or has another type: {}", h)));
        }
        eprintln!("{}", e);
        eprintln!("[C25] the evaluation of the emitted code does not build");
        std::process::exit(2);
    }
    run.end("emitted code compiled");
    for k in 0..BINS {
        let o = Command::new(format!("{}/release/e{}", target, k)).output().expect("evaluation");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut got: std::collections::HashMap<(usize, usize), Vec<String>> = Default::default();
        let mut cur = (0, 0);
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("SET ") {
                let w: Vec<usize> = x.split(' ').map(|x| x.parse().unwrap()).collect();
                cur = (w[0], w[1]);
                got.insert(cur, vec![]);
            } else if l != "END" {
                got.get_mut(&cur).unwrap().push(l.to_string());
            }
        }
        for (_, i) in texts.iter().filter(|x| x.0 == k) {
            let (name, sets) = &want[*i];
            for (t, w) in sets {
                let case = format!("width {} of {}", t, name);
                match got.get(&(*i, *t)) {
                    None => run.violation(&bad(case, format!("evaluating the emitted code failed: {}", String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" ")))),
                    Some(g) => {
                        run.check(compare(name, *t, g, w));
                        // the reader and the compiler agree
                        if let Some(r) = &read_back[*i] {
                            let r = r.iter().find(|x| x.0 == format!("rate_{}", t - 1));
                            // (where it reads something else, it leaves more than it need to the compiler)
                            agreed += (r.map(|x| &x.1) == Some(g)) as usize;
                        }
                    }
                }
                run.count(0, 0, 1);
            }
        }
        if !o.status.success() {
            run.violation(&bad("evaluation", format!("{}", o.status)));
        }
    }
    run.end("emitted functions evaluated and compared");
    run.extra("reader_checked_against_compiler", agreed.to_string());
    run.sample(want[0].0.clone());
    run.sample(want[want.len() / 2].0.clone());
    run.assume("the matrix interface the emitted code is written for is a stand-in (pg/shim), and so is the generation of the sets that are emitted");
    run.pass()
}

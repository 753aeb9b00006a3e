// The crate root of the generator without the modules that do not compile: the given modules and the
// modules and root items they refer to, from the repository's sources as they are.
use std::collections::BTreeSet;
use std::path::PathBuf;

const SRC: &str = "/repo/poseidon-paramgen/src";

fn file(m: &str) -> Option<PathBuf> {
    [format!("{}/{}.rs", SRC, m), format!("{}/{}/mod.rs", SRC, m)].iter().map(PathBuf::from).find(|p| p.exists())
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}
/// Names directly behind `crate::` or `super::`.
fn names(text: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for key in ["crate::", "super::"].iter() {
        for (i, _) in text.match_indices(key) {
            let rest = text[i + key.len()..].trim_start();
            if rest.starts_with('{') {
                let end = rest.find(';').unwrap_or(rest.len());
                v.extend(words(&rest[..end]).into_iter().map(String::from));
            } else {
                v.extend(words(rest).first().map(|w| w.to_string()));
            }
        }
    }
    v
}
/// Items of the root, each with the attributes in front of it.
fn items(root: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let (mut attrs, mut item, mut depth) = (String::new(), String::new(), 0i32);
    for l in root.lines() {
        let t = l.trim();
        if item.is_empty() && (t.is_empty() || t.starts_with("//") || t.starts_with("#!")) {
            continue;
        }
        if item.is_empty() && t.starts_with("#[") {
            attrs += &format!("{}\n", t);
            continue;
        }
        item += &format!("{}\n", l);
        depth += l.matches(|c| "{([".contains(c)).count() as i32 - l.matches(|c| "})]".contains(c)).count() as i32;
        if depth <= 0 && (t.ends_with(';') || t.ends_with('}')) {
            out.push((std::mem::take(&mut attrs), std::mem::take(&mut item)));
            depth = 0;
        }
    }
    out
}
#[allow(dead_code)]
fn generate(base: &[&str]) {
    generate_without(base, &[])
}
/// The same without some modules, for which stand-ins follow.
fn generate_without(base: &[&str], skip: &[&str]) {
    let root = std::fs::read_to_string(format!("{}/lib.rs", SRC)).unwrap();
    let items = items(&root);
    let mut mods: BTreeSet<String> = base.iter().map(|s| s.to_string()).collect();
    let mut keep: BTreeSet<usize> = BTreeSet::new();
    // is this item `mod name;`?
    let module = |s: &str| -> Option<String> {
        let w = words(s);
        let i = w.iter().position(|x| *x == "mod")?;
        (i <= 2 && s.trim().ends_with(';')).then(|| w[i + 1].to_string())
    };
    loop {
        let before = (mods.len(), keep.len());
        let mut want = BTreeSet::new();
        for m in &mods {
            want.extend(file(m).map(|f| names(&std::fs::read_to_string(f).unwrap())).unwrap_or_default());
        }
        for i in &keep {
            want.extend(words(&items[*i].1).into_iter().map(String::from));
        }
        for (i, (_, s)) in items.iter().enumerate() {
            match module(s) {
                Some(m) => {
                    if want.contains(&m) && file(&m).is_some() && !skip.contains(&&m[..]) {
                        mods.insert(m);
                    }
                }
                None => {
                    if s.trim_start().starts_with("extern ") || words(s).iter().any(|w| want.contains(*w)) {
                        keep.insert(i);
                    }
                }
            }
        }
        if before == (mods.len(), keep.len()) {
            break;
        }
    }
    let mut out = String::new();
    for m in &mods {
        let f = file(m).unwrap_or_else(|| panic!("no module {} in {}", m, SRC));
        out += &format!("#[path = {:?}]\npub mod {};\n", f, m);
    }
    for i in keep {
        out += &format!("{}#[allow(unused_imports)]\n{}", items[i].0, items[i].1);
    }
    println!("cargo:rerun-if-changed={}", SRC);
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("root.rs"), out).unwrap();
}

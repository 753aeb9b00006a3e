include!("../pg/gen.rs");
include!("erase.rs");
fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let dst = out.join("gsrc");
    fn walk(from: &std::path::Path, to: &std::path::Path) {
        std::fs::create_dir_all(to).unwrap();
        for e in std::fs::read_dir(from).unwrap() {
            let e = e.unwrap().path();
            let t = to.join(e.file_name().unwrap());
            if e.is_dir() {
                walk(&e, &t);
            } else if e.extension().map_or(false, |x| x == "rs") {
                let mut s = erased(&std::fs::read_to_string(&e).unwrap());
                // modules below a module of its own file, which are reached through a path attribute
                let stem = e.file_stem().unwrap().to_str().unwrap().to_string();
                let sub = e.parent().unwrap().join(&stem);
                if sub.is_dir() && stem != "lib" {
                    for f in std::fs::read_dir(&sub).unwrap() {
                        let f = f.unwrap().path();
                        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
                        let p = to.join(&stem).join(f.file_name().unwrap());
                        for v in ["pub ", "pub(crate)", ""].iter() {
                            let old = format!("{}mod {};", v, m);
                            if s.contains(&old) {
                                s = s.replacen(&old, &format!("#[path = {:?}]\npub mod {};", p, m), 1);
                                break;
                            }
                        }
                    }
                }
                std::fs::write(&t, s).unwrap();
            }
        }
    }
    walk(std::path::Path::new(SRC), &dst);
    let root = out.join("root.rs");
    generate_without(&["v1", "v2", "mds", "alpha", "input", "rounds", "round_constants", "transcript", "utils"], &["poseidon_build", "appendix_g"]);
    let s = std::fs::read_to_string(&root).unwrap();
    std::fs::write(&root, s.replace(&format!("{}/", SRC), &format!("{}/", dst.display()))).unwrap();
}

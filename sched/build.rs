// Compiles the runtime (uninstrumented) that every instrumented memory access calls into.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let st = std::process::Command::new("clang")
        .args(["-O2", "-fno-sanitize=all", "-Wall", "-Wno-atomic-alignment", "-ftls-model=initial-exec", "-c", "rt.c", "-o", &o])
        .status()
        .expect("clang");
    assert!(st.success());
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rustc-link-arg={o}");
}

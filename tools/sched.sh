# Build of the interleaving explorer: everything, the standard library included, with memory accesses hooked.
build_sched() {
    (cd sched && CARGO_TARGET_DIR=$PWD/../target/tsan RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" \
        cargo +nightly build --offline --release -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu)
}

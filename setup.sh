#!/bin/bash
# Builds every harness from the committed files so that the checks only rebuild what changed in /repo.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD VERIF_REPO=${VERIF_REPO:-/repo}
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
for c in core mat circ pg pgb pgm pgf small; do
    (cd $c && cargo build --offline --release -q) || exit 1
done
(cd small && cargo build --offline --release -q --features literal >/dev/null 2>&1)
(cd circ && cargo build --offline --release -q --bin c23 --features literal >/dev/null 2>&1)
. tools/sched.sh
build_sched >/tmp/vp-sched.log 2>&1 || { tail -30 /tmp/vp-sched.log; exit 1; }
target/release/c17 quick prebuild || exit 1

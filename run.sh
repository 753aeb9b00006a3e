#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]: build the check of one property from /repo's working tree and run it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD VERIF_REPO=${VERIF_REPO:-/repo}
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier
lower=$(echo "$prop" | tr A-Z a-z)
build() { # crate bin...
    local crate=$1 log; shift
    log=$(mktemp)
    if ! (cd "$crate" && cargo build --offline --release -q "${@/#/--bin=}" >"$log" 2>&1); then
        grep -v '^warning' "$log" | tail -60
        rm -f "$log"
        echo "[$prop] the harness does not build against this tree"
        exit 2
    fi
    rm -f "$log"
}
# The same code compiled over integers modulo small primes. Not part of the verdict where a tree cannot
# be compiled that way.
small() {
    MC_SMALL=
    if (cd small && { cargo build --offline --release -q --features literal || cargo build --offline --release -q; } >/dev/null 2>&1); then MC_SMALL=$PWD/target/release/mc-small; fi
    export MC_SMALL
}
case $prop in
C01 | C02 | C03 | C04 | C05 | C06 | C11 | C13 | C14 | C16 | C23) small ;;
esac
case $prop in
C01 | C02 | C03 | C09 | C10 | C11 | C12 | C17)
    build core "$lower"
    exec target/release/"$lower" "$tier"
    ;;
C13 | C14 | C15 | C16 | C21 | C24)
    build mat "$lower"
    exec target/release/"$lower" "$tier"
    ;;
C04 | C05 | C06 | C07)
    build circ "$lower"
    exec target/release/"$lower" "$tier"
    ;;
C23)
    # "literal": InstanceVar is built from its public fields
    if ! (cd circ && cargo build --offline --release -q --bin c23 --features literal >/dev/null 2>&1); then build circ c23; fi
    exec target/release/c23 "$tier"
    ;;
C18 | C20)
    build pg "$lower"
    exec target/release/"$lower" "$tier"
    ;;
C25)
    build pgb c25
    exec target/release/c25 "$tier"
    ;;
C22)
    build pgm c22
    exec target/release/c22 "$tier"
    ;;
C19)
    build pgf
    exec target/release/mc-pgf "$tier"
    ;;
C08)
    . tools/sched.sh
    if ! build_sched >/tmp/vp-sched.log 2>&1; then
        grep -A12 '^error' /tmp/vp-sched.log | tail -60
        echo "[$prop] the harness does not build against this tree"
        exit 2
    fi
    exec target/tsan/x86_64-unknown-linux-gnu/release/mc-sched "$tier"
    ;;
*)
    echo "no check for $prop"
    exit 2
    ;;
esac

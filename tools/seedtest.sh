#!/bin/bash
# seedtest.sh ID: in the scratch copy /tmp/seed, check that seeded/ID applies, builds, passes the tests, and that its
# demonstration passes without and fails with it.
set -u
id=$1; s=/verif/seeded/$id
cd /tmp/seed || exit 1
. <(sed 's#^cd /repo.*#cd /tmp/seed#; s#/opt/vp/Cargo.lock#Cargo.lock#' /opt/vp/env.sh)
cd /tmp/seed
git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash "$s/demo.sh" > /tmp/seed.demo0 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
cargo test "${OPTS[@]}" --all-targets --no-run > /tmp/seed.build 2>&1 || { echo "$id: does not build"; tail -30 /tmp/seed.build; git checkout -q -- .; exit 1; }
cargo test "${OPTS[@]}" --no-fail-fast -- --test-threads 8 > /tmp/seed.test 2>&1; t=$?
n=$(grep -c '^test .* ok$' /tmp/seed.test)
bash "$s/demo.sh" > /tmp/seed.demo1 2>&1; b=$?
git checkout -q -- .
echo "$id: tests rc=$t ok=$n demo clean=$a patched=$b"
[ $a = 0 ] || tail -20 /tmp/seed.demo0
[ $t = 0 ] || grep -E 'FAILED|failed|panicked' /tmp/seed.test | head
[ $b != 0 ] || tail -5 /tmp/seed.demo1
tail -2 /tmp/seed.demo1

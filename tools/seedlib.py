"""Writes a planted bug into /verif/seeded from edits of the scratch copy /tmp/seed."""
import json, os, subprocess
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if not. Run in the repository's root after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/vp-demo-@ID@
mkdir -p /tmp/vp-demo-@ID@/src
sed "s#REPO_PATH#$repo#" "$here/demo.rs" > /tmp/vp-demo-@ID@/src/main.rs
cat > /tmp/vp-demo-@ID@/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
[profile.release]
debug = false
@PROFILE@
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/vp-demo-@ID@/Cargo.lock
cd /tmp/vp-demo-@ID@ || exit 99
export CARGO_TARGET_DIR=/tmp/vp-demo-@ID@/target CARGO_NET_OFFLINE=true
timeout 280 cargo run --offline -q @RUN@ 2>/tmp/vp-demo-@ID@/err
rc=$?
grep -v -E '^ *(warning|\\||=|-->|[0-9]+ \\|)' /tmp/vp-demo-@ID@/err | tail -15
rm -rf /tmp/vp-demo-@ID@
exit $rc
'''
NATIVE = '''decaf377 = { version = "0.10.1", default-features = false }
poseidon377 = { path = "$repo/poseidon377", default-features = false }
poseidon-parameters = { path = "$repo/poseidon-parameters", default-features = false }
poseidon-permutation = { path = "$repo/poseidon-permutation", default-features = false }'''
CIRCUIT = '''decaf377 = { version = "0.10.1", default-features = false, features = ["r1cs"] }
poseidon377 = { path = "$repo/poseidon377", features = ["r1cs"] }
poseidon-parameters = { path = "$repo/poseidon-parameters" }
poseidon-permutation = { path = "$repo/poseidon-permutation", features = ["r1cs"] }
ark-ff = { version = "0.4", default-features = false }
ark-r1cs-std = { version = "0.4", default-features = false }
ark-relations = { version = "0.4", default-features = false }'''
GENERATOR = '''poseidon-parameters = { path = "$repo/poseidon-parameters" }
ark-ff = { version = "0.4", default-features = false, features = ["std"] }
ark-std = { version = "0.4", default-features = false, features = ["std"] }
merlin = { version = "3.0", default-features = false, features = ["std"] }
num = { version = "0.4", default-features = false, features = ["std"] }
num-bigint = { version = "0.4", default-features = false, features = ["std"] }'''
def seed(id, prop, edits, needs, breaks, demo, deps=NATIVE, run="--release", profile=""):
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/tmp/seed", check=True)
    for f, a, b in edits:
        p = os.path.join("/tmp/seed", f)
        s = open(p).read()
        assert s.count(a) >= 1, (id, f, "not found", a)
        assert s.count(a) == 1, (id, f, "ambiguous", a)
        open(p, "w").write(s.replace(a, b))
    d = subprocess.run(["git", "diff"], cwd="/tmp/seed", check=True, capture_output=True, text=True).stdout
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/tmp/seed", check=True)
    out = os.path.join(SEEDED, id)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.rs", "w").write(demo)
    open(out + "/demo.sh", "w").write(DEMO.replace("@ID@", id).replace("@DEPS@", deps).replace("@RUN@", run).replace("@PROFILE@", profile))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)

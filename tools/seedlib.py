#!/usr/bin/env python3
"""Makes and tries the planted bugs of /verif/seeded.

  seedlib.py make FILE.py     write seeded/<id>/ from the list BUGS in FILE.py
  seedlib.py try  ID...       apply each to /repo, build, test, demo, check; undo
"""
import json, os, subprocess, sys, shutil, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = '''#!/bin/bash
# cwd: the repository, built. Exit 0 if it behaves, nonzero if not.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
ed448-goldilocks = { path = "$REPO", default-features = false, features = ["FEATURE", "rand"] }
rand_core = { version = "*", default-features = false }
subtle = { version = "*", default-features = false }
TOML
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true cargo run --offline --quiet
'''
PRE = '''#![allow(unused_imports, dead_code)]
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use subtle::{ConditionallySelectable, ConstantTimeEq};

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn b56(s: &str) -> [u8; 56] { let mut r = [0; 56]; r.copy_from_slice(&hex(s)); r }
fn b57(s: &str) -> [u8; 57] { let mut r = [0; 57]; r.copy_from_slice(&hex(s)); r }
/// the point of order 2
fn two() -> ExtendedPoint { ExtendedPoint::identity().torque() }
/// a point of order 4: y = 0
fn four() -> ExtendedPoint { CompressedEdwardsY([0; 57]).decompress().unwrap() }
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            for file, old, new in b["edits"]:
                p = os.path.join("/repo", file)
                t = open(p).read()
                assert t.count(old) == 1, (b["id"], file, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- .")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FEATURE", b.get("feature", "fiat_u64_backend")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(PRE + b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])

def demo(i):
    return sh(f"timeout 280 bash {SEED}/{i}/demo.sh", cwd="/repo")

def trial(i, checks=True):
    meta = json.load(open(f"{SEED}/{i}/meta.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    res = {}
    r = demo(i)
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    try:
        assert sh(f"git -C /repo apply {SEED}/{i}/patch.diff").returncode == 0, "apply"
        r = sh("bash /opt/vp/build.sh")
        res["build"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        t = json.load(open("/tmp/seed-test.json"))
        failed = [k for k in stable if k not in set(t.get("passed", []))] if isinstance(t.get("passed"), list) else t
        res["tests_failing"] = failed if len(str(failed)) < 600 else str(failed)[:600]
        res["demo_bug"] = demo(i).returncode
        if checks:
            t0 = time.time()
            r = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3 check.py {meta['property']}", cwd=HERE)
            res["check"] = r.returncode
            res["secs"] = round(time.time() - t0)
            res["line"] = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "is not a behaviour" in l or l.startswith("ERROR")][:2]
    finally:
        sh("git -C /repo checkout -- .")
    good = res["demo_clean"] == 0 and res["build"] == 0 and not res["tests_failing"] and res["demo_bug"] != 0
    print(i, meta["property"], "COUNTS" if good else "*** DOES NOT COUNT", "CAUGHT" if res.get("check") == 1 else "*** MISSED", json.dumps(res)[:900], flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEED)):
            trial(i)

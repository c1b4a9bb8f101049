#!/usr/bin/env python3
"""Makes /verif/seeded from one table: plants each change in a scratch copy of /repo, checks that it
builds, passes the stable tests, and that its demonstration tells the two trees apart.
usage: seeds.py [ID ...]   (scratch copy: /tmp/seedwt)"""
import json, os, subprocess, sys, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Builds a small program against the puruspe in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 99
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'find "$d" -depth -delete' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\npuruspe = { path = "%s" }\\n[profile.dev]\\nopt-level = 1\\n' "$repo" > "$d/Cargo.toml"
cd "$d" || exit 99
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build -q --offline >build.log 2>&1 || { cat build.log; exit 98; }
timeout 200 "$d/target/debug/demo"
'''
HELP = '''#![allow(dead_code)]
use puruspe::*;
/// relative error
fn rel(got: f64, want: f64) -> f64 {
    if got == want { 0.0 } else { ((got - want) / want).abs() }
}
fn check(what: &str, ok: bool) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(WT):
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} fetch -q /repo HEAD && git -C {WT} checkout -qf FETCH_HEAD")
    sh(f"git -C {WT} checkout -- .")
ENV = dict(os.environ, PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=WT + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", cwd=WT, env=ENV)
    ok = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
    return sum(int(x[1]) for x in ok), sum(int(x[2]) for x in ok), r
def make(s):
    fresh()
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    demo = DEMO
    if s.get("release"):
        demo = demo.replace("cargo build -q", "cargo build --release -q").replace("target/debug/demo", "target/release/demo")
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(HELP + "fn main() {\n" + s["demo"].strip("\n") + "\n}\n" + s.get("extra", ""))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if s.get("clean_first", True):
        r = sh(f"bash {d}/demo.sh", cwd=WT)
        if r.returncode != 0:
            return f"demo fails on the unchanged tree: {r.stdout[-400:]}"
    for f, old, new in s["edits"]:
        p = f"{WT}/src/{f}"; t = open(p).read()
        if t.count(old) != 1:
            return f"{f}: {t.count(old)} occurrences of {old!r}"
        base = sh(f"git show ba196fb:src/{f}", cwd="/repo").stdout
        common = [l for l in old.split("\n") if l.strip()]
        gone = [l for l in common if l not in new.split("\n")]
        if gone and not any(l in base for l in gone):
            print("  note: changed lines are not in the base:", gone)
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=WT).stdout)
    n, bad, r = tests()
    if n + bad == 0 or bad:
        return "tests: " + str((n, bad)) + "\n" + "\n".join(l for l in r.stdout.split("\n") if "FAILED" in l or "panicked" in l or "error" in l)[:600]
    r = sh(f"bash {d}/demo.sh", cwd=WT)
    if r.returncode == 0:
        return "demo passes with the change"
    if r.returncode in (98, 99):
        return "demo does not build: " + r.stdout[-500:]
    return None
if __name__ == "__main__":
    from seedtab import SEEDS
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        e = make(s)
        print(s["id"], s["prop"], "ok" if e is None else "REJECTED: " + e, flush=True)
        if e is not None:
            shutil.rmtree(f"{ROOT}/seeded/{s['id']}")
    fresh()

#!/usr/bin/env python3
"""Makes and confirms planted changes: seed.py make (from seeds.py) | seed.py confirm [ID..] | seed.py detect [ID..]"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
DEMO = '''#!/bin/bash
# Builds the program beside this file against the crates in the current directory and runs it:
# exit 0 when the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
serde = { version = "1", features = ["derive"] }
serde_json = { version = "1", features = ["alloc"] }
%DEPS%
EOF
cd "$T" && cargo run -q --offline
'''
DEPS = {"core": 'vercre-core = { path = "$R/crates/core" }', "dif": 'vercre-dif-exch = { path = "$R/crates/dif-exch" }\nanyhow = "1"', "macros": 'vercre-macros = { path = "$R/crates/macros" }'}
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix="seed-"); r = d + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", r]); return d, r
def make(only):
    from seeds import SEEDS
    for s in SEEDS:
        if only and s["id"] not in only: continue
        d, r = copy()
        for f, a, b in s["edits"]:
            t = open(f"{r}/{f}").read(); assert t.count(a) >= 1, (s["id"], f, a)
            i = t.index(a, t.index(s["after"]) if s.get("after") else 0)
            open(f"{r}/{f}", "w").write(t[:i] + b + t[i + len(a):])
        o = f"{root}/seeded/{s['id']}"; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(sh("git", "-C", r, "diff").stdout)
        if s.get("kit"):
            shutil.copyfile(here + "/demo_kit.sh", o + "/demo.sh")
        else:
            open(o + "/demo.sh", "w").write(DEMO.replace("%DEPS%", "\n".join(DEPS[k] for k in s["deps"])))
        open(o + "/main.rs", "w").write(s["demo"])
        for n, t in s.get("files", {}).items(): open(f"{o}/{n}", "w").write(t)
        if s.get("tail"):
            t = open(o + "/demo.sh").read(); open(o + "/demo.sh", "w").write(t.replace('cd "$T" && cargo run -q --offline\n', s["tail"]))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
def ids(): return sys.argv[2:] or sorted(os.listdir(root + "/seeded"))
def confirm():
    for i in ids():
        o = f"{root}/seeded/{i}"; d, r = copy()
        clean = sh("bash", o + "/demo.sh", cwd=r)
        a = sh("git", "-C", r, "apply", o + "/patch.diff")
        bad = sh("bash", o + "/demo.sh", cwd=r)
        built = "error[" not in bad.stderr and "could not compile" not in bad.stderr
        print(i, "clean", clean.returncode, "patched", bad.returncode, "OK" if clean.returncode == 0 and bad.returncode and a.returncode == 0 and built else "PROBLEM\n" + clean.stderr[-1500:] + a.stderr + bad.stderr[-800:], flush=True)
        shutil.rmtree(d)
def detect():
    props = [l for l in (json.loads(x)["id"] for x in open(root + "/properties.jsonl"))]
    for i in ids():
        o = f"{root}/seeded/{i}"; want = json.load(open(o + "/meta.json"))["property"]
        subprocess.check_call(["git", "-C", "/repo", "apply", o + "/patch.diff"])
        try:
            r = sh("bash", root + "/run.sh", want, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
            hit = f"VIOLATION property={want}" in r.stdout
            print(i, want, "rc", r.returncode, "CAUGHT" if hit and r.returncode == 1 else "MISSED " + r.stdout[-300:] + r.stderr[-600:], flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
{"make": lambda: make(sys.argv[2:]), "confirm": confirm, "detect": detect}[sys.argv[1]]()

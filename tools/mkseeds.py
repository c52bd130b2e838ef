#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seed_defs.py and confirms each planted bug in a scratch copy of /repo.
usage: mkseeds.py [id ...]      (no check reads /verif/seeded or this file)"""
import os, re, subprocess, sys, shutil, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed_defs import SEEDS
REPO, OUT = "/repo", os.path.join(os.path.dirname(HERE), "seeded")
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
ENV.pop("CARGO_TARGET_DIR", None)
BASE = "0abcaeb"

DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src" && cp "$here/demo.rs" "$scratch/src/main.rs" || exit 2
cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
concordance = { path = "$repo" }
%s[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scratch/target" CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER
cd "$scratch" || exit 2
cargo build -q --offline > "$scratch/build.log" 2>&1 || { cat "$scratch/build.log"; exit 2; }
timeout 60 "$scratch/target/debug/demo"
'''

def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def make(seed, scratch):
    d = os.path.join(OUT, seed["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, old, new in seed["edits"]:
        p = os.path.join(scratch, "src", f); s = open(p).read()
        assert s.count(old) == 1, (seed["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], scratch).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    deps = "".join('%s = "%s"\n' % kv for kv in seed.get("deps", {}).items())
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % deps); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write("#![allow(unused_imports)]\nuse concordance::*;\n" + seed["demo"].strip() + "\n")
    json.dump({"property": seed["prop"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # lines of mine?
    for l in diff.splitlines():
        pass
    blame_bad = []
    cur = None
    for f, old, new in seed["edits"]:
        b = sh(["git", "blame", "-s", "HEAD", "--", "src/" + f], scratch).stdout.splitlines()
        removed = set(); cur=None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if cur == "src/" + f and l and not l.startswith(("---", "+++", "diff", "index")):
                if l[0] == "-": removed.add(n); n += 1
                elif l[0] == " ": n += 1
        for n in removed:
            if not b[n-1].startswith("^"): blame_bad.append((f, n, b[n-1]))
    r = sh("cargo test --offline 2>&1", scratch, 900)
    oks = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M)); fails = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
    sh(["bash", "-c", "true"], scratch)
    bad = sh(["bash", os.path.join(d, "demo.sh")], scratch)
    sh(["git", "checkout", "--", "."], scratch)
    good = sh(["bash", os.path.join(d, "demo.sh")], scratch)
    ok = oks >= 125 and not fails and bad.returncode not in (0, 2) and good.returncode == 0 and not blame_bad
    print(("OK  " if ok else "BAD ") + seed["id"], "tests ok %d failed %s" % (oks, fails[:4]), "demo patched rc %d, clean rc %d" % (bad.returncode, good.returncode), "FIXLINES %s" % blame_bad if blame_bad else "", flush=True)
    if not ok:
        if oks < 125 and not fails: print(r.stdout[-1500:])
        if good.returncode or bad.returncode == 2: print(good.stdout[-1500:], bad.stdout[-600:])
    else: pass
    return ok

def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="seedrepo."); 
    subprocess.run(["cp", "-a", REPO + "/.", scratch], check=True)
    assert not sh(["git", "status", "--short"], scratch).stdout
    bad = []
    try:
        for s in SEEDS:
            if want and s["id"] not in want: continue
            if not make(s, scratch): bad.append(s["id"])
    finally:
        shutil.rmtree(scratch)
    print("bad:", bad)
main()

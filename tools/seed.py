#!/usr/bin/env python3
"""developer helper for planted bugs.
   seed.py try ID [--nocheck] [--tier T] [prop...]   apply to /repo, build, test, demo, check, undo
   make(id, prop, edits, needs, breaks, main_rs)     (from python) write seeded/ID"""
import json, os, subprocess, sys, shutil, time
V = "/verif"
DEMO = r'''#!/bin/bash
# exits 0 iff the property's behaviour is right; builds against the current directory (/repo)
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu RUSTFLAGS=-Ctarget-cpu=x86-64-v3 CARGO_NET_OFFLINE=true
mkdir "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || true
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nredstone-ml = { path = "%s" }\n[workspace]\n' "$R" > "$W/Cargo.toml"
cd "$W" && cargo run --offline -q --target-dir "$W/target"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def make(id, prop, edits, needs, breaks, main):
    assert sh("git -C /repo status --porcelain").stdout.strip() == ""
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) >= 1, (id, f, "not found")
            assert s.count(old) == 1, (id, f, "ambiguous", s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = V + "/seeded/" + id
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        clean()
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write("use redstone_ml::*;\nfn main() {\n" + main + "\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def tests_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILS " + b.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x):
        for k in ("stable", "passed", "pass"):
            if k in x: return set(x[k])
        return set(k for k, v in x.items() if v in ("pass", "passed", True))
    miss = passed(base) - passed(d)
    return "ok" if not miss else "TESTS FAIL %d %s" % (len(miss), sorted(miss)[:4])
def run(id, props=None, check=True, tier="quick", tests=True):
    d = V + "/seeded/" + id
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout.strip() == ""
    r = {}
    if tests: r["demo0"] = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(id, "PATCH DOES NOT APPLY", a.stderr); return
    try:
        if tests:
            r["tests"] = tests_ok()
            x = sh("bash %s/demo.sh" % d, cwd="/repo")
            r["demo1"] = x.returncode
            r["demo_err"] = x.stderr[-200:]
        if check:
            for p in props or [meta["property"]]:
                t = time.time()
                c = sh("python3 check.py %s %s" % (p, tier), cwd=V)
                v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))]
                r[p] = (c.returncode, round(time.time() - t), (v or [c.stdout[-200:]])[0][:90], [l for l in c.stdout.splitlines() if l.startswith("  ")][:1])
    finally:
        clean()
    print(id, meta["property"], json.dumps(r)[:900], flush=True)
if __name__ == "__main__":
    a = sys.argv[2:]
    ck = "--nocheck" not in a; nt = "--notests" in a
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    a = [x for x in a if not x.startswith("--") and x != tier]
    run(a[0], a[1:] or None, ck, tier, not nt)

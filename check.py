#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code (see DESIGN.md).

usage: check.py <property> [quick|thorough]

Builds the engine, the harness (LLVM IR of the harness linked with /repo's current sources) and the
native replay, explores every path of the property's harnesses, lets the solver decide every
assertion, replays counterexamples and a sample of the completed paths natively, and writes
evidence/<property>.json.  Exit: 0 property holds within the bounds, 1 violation, 2 no verdict.
"""
import random, collections
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = "/verif"
B = V + "/build"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu",
           RUSTFLAGS="-Ctarget-cpu=x86-64-v3", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)


def fail(msg):
    print("ERROR " + msg)
    sys.exit(2)


def start(cmd, cwd):
    return subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def wait(p, what):
    out, _ = p.communicate()
    if p.returncode != 0:
        errs = [l for l in out.splitlines() if l.startswith("error")]
        print(out[-6000:])
        fail("%s does not build: %s" % (what, "; ".join(errs[:3])))


def build(prop):
    feat = prop.lower()
    # always re-emit the IR: cargo does not track it, and the features share one output name
    for d in glob.glob(B + "/harness/debug/.fingerprint/rsh-*"):
        shutil.rmtree(d, ignore_errors=True)
    for f in glob.glob(B + "/harness/debug/deps/rsh.ll") + glob.glob(B + "/harness/debug/deps/*.rcgu.*"):
        os.unlink(f)
    e = start(["cargo", "build", "--release", "--offline", "--target-dir", B + "/engine"], V + "/engine")
    h = start(["cargo", "rustc", "--offline", "--features", feat, "--target-dir", B + "/harness", "--",
               "--emit=llvm-ir", "-Csave-temps"], V + "/harness")
    r = start(["cargo", "build", "--offline", "--features", feat, "--target-dir", B + "/replay"], V + "/replay")
    wait(e, "the engine")
    wait(h, "the harness")
    ll = B + "/harness/debug/deps/rsh.ll"
    if not os.path.exists(ll):
        fail("no LLVM IR was produced")
    deps = os.path.dirname(ll)
    for f in os.listdir(deps):
        if ".rcgu." in f:
            os.unlink(os.path.join(deps, f))
    return ll, r


def replay(tier, cases):
    """cases: [(entry, inputs)] -> [(outcome, observes)]"""
    if not cases:
        return []
    path = B + "/cases-%d.txt" % os.getpid()
    with open(path, "w") as f:
        for e, i in cases:
            f.write(e + " " + " ".join(str(x) for x in i) + "\n")
    p = subprocess.run([B + "/replay/debug/rsreplay", "-t", str(tier), path], env=ENV, text=True, capture_output=True)
    os.unlink(path)
    out = []
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "):
            _, o, obs = (l[7:] + " ").split(" | ")[:3]
            out.append((o.strip(), obs.split()))
    if len(out) != len(cases):
        fail("native replay failed: " + p.stdout[-500:] + p.stderr[-500:])
    return out


def main():
    prop = sys.argv[1].upper()
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")).lower()
    t = 1 if tier == "thorough" else 0
    tier = "thorough" if t else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True)
    ll, rproc = build(prop)
    src = open(V + "/harness/src/%s.rs" % prop.lower()).read()
    entries = re.findall(r"^\s+(ht?_[a-z0-9_]+) =>", src, re.M)
    if not t:
        entries = [e for e in entries if not e.startswith("ht_")]
    jobs = os.cpu_count() or 8
    out = B + "/out-%s.json" % prop
    budget = 800 if t else 560
    t1 = time.time()
    cmd = [B + "/engine/release/redsym", "--ll", ll, "--jobs", str(jobs), "--timeout", str(budget),
           "--qtimeout", "30000" if t else "10000", "--tier", str(t), "--samples", "2", "--max-violations", "2",
           "--seed", str(seed), "--out", out]
    if t:
        cmd.append("--cross")
    for e in entries:
        cmd += ["--entry", "%s:%d" % (e, 2 * jobs if t else jobs)]
    p = subprocess.run(cmd, env=ENV, text=True, capture_output=True)
    if p.returncode != 0:
        fail("engine: " + p.stderr[-1500:])
    explore_s = time.time() - t1
    wait(rproc, "the native replay")
    reports = json.load(open(out))["reports"]

    # ---- counterexamples
    seen, viol = set(), []
    for r in reports:
        for v in r["violations"]:
            key = (r["entry"], v["kind"], v["assert_id"], v["msg"].split(":")[0])
            if key not in seen:
                seen.add(key)
                viol.append((r["entry"], v))
    viol = viol[:24]
    res = replay(t, [(e, v["inputs"]) for e, v in viol])
    # ---- obligations "some execution reaches this": decided by the exploration, confirmed by random native runs
    cov, done = collections.defaultdict(set), collections.defaultdict(lambda: True)
    for r in reports:
        cov[r["entry"]].update(int(k) for k in r["covers"])
        done[r["entry"]] &= r["complete"]
    rnd = random.Random(seed)
    for e in entries:
        missing = sorted(k - 2**31 for k in cov[e] if k >= 2**31 and k - 2**31 not in cov[e])
        if missing and done[e]:
            runs = replay(t, [(e, [rnd.getrandbits(64) for _ in range(32)]) for _ in range(2000)])
            hit = set(int(x) for o, obs in runs if o == "ok" for x in obs)
            v = {"kind": "unreachable", "msg": "no execution within the bounds yields: " + ", ".join(map(str, missing)),
                 "inputs": [], "trace": [], "assert_id": 0}
            viol.append((e, v))
            n = sum(o == "ok" for o, _ in runs)
            res.append(("never in %d random runs" % n, []) if n > 500 and not hit & set(missing) else ("ok", []))
    known = json.load(open(V + "/known_findings.json"))["findings"]
    confirmed, unconfirmed, findings = [], [], []
    for (e, v), (o, _) in zip(viol, res):
        if o in ("ok", "panic-expected") or o.startswith(("assumption-false", "input-", "harness-")):
            unconfirmed.append((e, v, o))
            continue
        k = [f for f in known if f["property"] == prop and f["entry"] == e and f["kind"] == v["kind"]
             and re.search(f["match"], v["msg"] + " " + o)]
        (findings if k else confirmed).append((e, v, o, k))

    # ---- sampled paths: the encoding and the native execution agree
    cases, want = [], []
    for r in reports:
        for s in r["samples"]:
            cases.append((r["entry"], s["inputs"]))
            want.append(s)
    lim = 1200 if t else 400
    step = max(1, len(cases) // lim)
    cases, want = cases[seed % step::step], want[seed % step::step]
    got = replay(t, cases)
    mismatch = []
    for (e, i), w, (o, obs) in zip(cases, want, got):
        exp = "ok" if w["outcome"] == "ok" else "panic-expected"
        if o != exp or (exp == "ok" and [str(x) for x in w["observes"]] != obs):
            mismatch.append((e, i, o, exp))

    # ---- vacuity
    per = collections.OrderedDict((e, collections.Counter()) for e in entries)
    funcs, stubs, covers, incomplete = set(), set(), collections.Counter(), []
    for r in reports:
        c = per[r["entry"]]
        for k in ("paths_done", "paths_panic", "paths_dropped", "forks", "steps", "asserts", "asserts_normalised",
                  "asserts_solver", "decided_by_normalisation", "queries", "sat", "unsat", "unknown", "cache_hits",
                  "solver_s", "cross_checked", "wall"):
            c[k] += r[k]
        funcs.update(r["functions"])
        stubs.update(r["stubs"])
        for k, n in r["covers"].items():
            covers[k] += n
        if not r["complete"] and not r["violations"]:
            incomplete.append("%s[%d/%d]: %s" % (r["entry"], r["shard"], r["nshards"], "; ".join(r["unsupported"][:2]) or "incomplete"))
    vacuous = [e for e, c in per.items() if c["paths_done"] + c["paths_panic"] == 0 or c["asserts"] + c["paths_panic"] == 0]

    # ---- report
    tot = collections.Counter()
    for c in per.values():
        tot.update(c)
    repo = sorted(f for f in funcs if "redstone_ml" in f)
    replays = []
    for n, (e, v, o, _) in enumerate(confirmed):
        path = V + "/evidence/%s-violation-%d.json" % (prop, n)
        json.dump({"property": prop, "entry": e, "kind": v["kind"], "message": v["msg"], "trace": v["trace"],
                   "inputs": v["inputs"], "native_outcome": o, "tier": tier,
                   "replay_cmd": "echo '%s %s' > /tmp/case.txt && %s/replay/debug/rsreplay -v -t %d /tmp/case.txt"
                                 % (e, " ".join(map(str, v["inputs"])), B, t)}, open(path, "w"), indent=1)
        replays.append(path)
    samples = [{"entry": e, "inputs": i, "outcome": w["outcome"], "observed": w["observes"][:16]}
               for (e, i), w in list(zip(cases, want))[:: max(1, len(cases) // 5)][:5]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths_done"] + tot["paths_panic"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": len(cases) - len(mismatch),
            "samples": samples,
            "explanation": "states = feasible symbolic paths through the real code (each covers all element values that follow it); "
                           "transitions = LLVM instructions executed symbolically; traces_validated = sampled paths whose native run agreed.",
            "exhaustive": not incomplete and not viol,
            "paths_completed": tot["paths_done"], "paths_ending_in_expected_panic": tot["paths_panic"],
            "forks": tot["forks"],
            "assertions_checked": tot["asserts"],
            "assertions_over_symbolic_values_decided_by_solver": tot["asserts_solver"] - tot["decided_by_normalisation"],
            "assertions_decided_by_term_normalisation_after_solver_timeout": tot["decided_by_normalisation"],
            "assertions_over_concrete_structure": tot["asserts_normalised"],
            "solver": "z3 4.8.12 (QF_BV/QF_FP)" + (", unsat answers confirmed by cvc5 where it answers" if t else ""),
            "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"],
            "queries_unknown": tot["unknown"], "query_cache_hits": tot["cache_hits"],
            "unsat_confirmed_by_second_solver": tot["cross_checked"],
            "solver_s": round(tot["solver_s"], 2), "exploration_wall_s": round(explore_s, 1),
            "functions_encoded": len(funcs), "functions_encoded_of_redstone_ml": len(repo),
            "functions_of_redstone_ml": repo[:400],
            "stubbed_externals": sorted(stubs),
            "harnesses": {e: {"paths": c["paths_done"] + c["paths_panic"], "assertions": c["asserts"],
                              "queries": c["queries"], "instructions": c["steps"], "cpu_s": round(c["wall"], 1)}
                          for e, c in per.items()},
            "bounds": bounds(prop, src),
        },
        "assumptions": ["x86-64, dev profile (overflow checks and debug assertions on), no BLAS/vDSP/NEON cfg",
                        "allocation never fails; panics end the path (panic=abort in the encoding)",
                        "the engine's LLVM semantics and z3 are trusted; sampled paths are replayed natively to cross-check the encoding"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1f s solver), %d native replays, %.0f s"
          % (prop, tier, len(entries), tot["paths_done"] + tot["paths_panic"], tot["asserts"], tot["queries"],
             tot["solver_s"], len(cases), time.time() - t0))
    for e, v, o, k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
    if confirmed:
        for (e, v, o, _), path in zip(confirmed, replays):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s: %s; natively: %s" % (e, v["kind"], v["msg"][:200], o[:200]))
        sys.exit(1)
    if unconfirmed:
        for e, v, o in unconfirmed:
            print("  UNCONFIRMED %s: %s: %s; natively: %s; trace %s" % (e, v["kind"], v["msg"][:200], o[:200], " < ".join(v["trace"][:6])))
        fail("counterexamples that the native code does not reproduce")
    if mismatch:
        for m in mismatch[:5]:
            print("  MISMATCH", m)
        fail("the encoding and the native execution disagree on sampled paths")
    if incomplete:
        for i in incomplete[:8]:
            print("  INCOMPLETE", i)
        fail("exploration incomplete")
    if vacuous:
        fail("vacuous harness: " + ", ".join(vacuous))
    sys.exit(0)


def bounds(prop, src):
    m = re.search(r"^//! Bounds: (.*(?:\n//!.*)*)", src, re.M)
    return re.sub(r"\s*\n//!\s*", " ", m.group(1)) if m else "see DESIGN.md"


main()

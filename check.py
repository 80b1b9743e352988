#!/usr/bin/env python3
"""check.py PROPERTY: decides one property. See DESIGN.md.

For every harness of the property, in both profiles: llsym executes the compiled code (the LLVM bitcode of /repo's crate,
of the harness and of Rust's standard library) symbolically; every violation it finds is replayed natively, and a sample
of the passing paths is run natively and compared.
"""
import concurrent.futures, json, os, re, subprocess, sys, time
import build as bld

HERE = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(HERE, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = 820 if TIER == "quick" else 6 * 3600
UB_KINDS = ("race", "memory", "ub", "uninit")

def known_findings():
    """known-findings.txt: `known: property=<id> harness=<name> kind=<kind> at=<part of the location> msg=<text>`"""
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) at=(\S+) msg=(.*?)(?: -- .*)?$", l.strip())
        if m:
            r.append(m.groups())
    return r

def engine(bc, name, meta, out, left):
    t = float(meta["time"]) * (1 if TIER == "quick" else float(meta.get("scale", "10")))
    t = max(5, min(t, left))
    cmd = [os.path.join(B, "llsym"), bc, name, "--time", str(t), "--mem-gb", meta.get("mem", "6"), "--out", out, "--samples", meta.get("samples", "12")]
    if "preempt" in meta:
        cmd += ["--preempt", meta["preempt"]]
    if meta.get("races") == "off":
        cmd += ["--no-races"]
    if "conc" in meta:
        cmd += ["--conc", meta["conc"]]
    if "steps" in meta:
        cmd += ["--steps", meta["steps"]]
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -s unlimited; exec "$@"', "x", *cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 60)
        err = r.stdout[-500:]
    except subprocess.TimeoutExpired:
        err = "the engine did not stop"
    if not os.path.exists(out):
        return {"harness": name, "fatal": "engine died: " + err}
    return json.load(open(out))

def native(exe, cases, valgrind=False):
    """cases: [(harness, inputs)] -> [(outcome, detail, [logs])]"""
    text = "\n".join(n + "".join(f" {k}={v}" for k, v in i.items() if v) for n, i in cases) + "\n"
    e = dict(os.environ, RUST_BACKTRACE="0")
    cmd = [exe]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", exe]
        e.update(NOFORK="1", GIVE_BACK="1")
    try:
        r = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120 + len(cases), env=e)
    except subprocess.TimeoutExpired:
        return [("timeout", "", [])] * len(cases)
    if valgrind:
        if r.returncode == 99:
            m = re.search(r"==\d+== (.*)", r.stderr)
            return [("memory", "valgrind: " + (m[1] if m else "error"), [])]
    res = []
    for l in r.stdout.splitlines():
        p = l.split("\t")
        if len(p) >= 3:
            res.append((p[0], p[1], [x for x in p[2].split(",") if x]))
    while len(res) < len(cases):
        res.append(("died", r.stderr[-200:], []))
    return res

def replay(v, name, profile, exes, bcs, d, idx):
    """Replays a violation natively. Returns (reproduced, how)."""
    case = [(name, v["inputs"])]
    tried = []
    order = [profile] + [p for p in exes if p != profile]
    for p in order:
        o = native(exes[p], case)[0]
        tried.append(f"{p}: {o[0]} {o[1]}")
        if o[0] in ("assert", "panic", "memory", "died", "abort", "timeout") and not (o[0] == "abort" and o[1] == ""):
            return True, f"native {p} build: {o[0]} {o[1]}".strip(), tried
    if v["kind"] in UB_KINDS or v["schedule"]:
        for p in order:
            if v["schedule"]:
                break
            o = native(exes[p], case, valgrind=True)[0]
            tried.append(f"{p} under valgrind: {o[0]} {o[1]}")
            if o[0] in ("memory", "died"):
                return True, f"native {p} build under valgrind: {o[1]}", tried
        if v["kind"] == "memory" and not v["schedule"] and re.search(r"double free|use after free|freed memory", v["msg"]):
            return False, "", tried     # valgrind and the checking allocator would have seen it
        # undefined behaviour without a symptom, or a schedule that a native run cannot be forced into:
        # the concrete case is executed once more by the engine, with every input fixed
        fixed = os.path.join(d, f"{name}.{profile}.{idx}.fixed.json")
        cmd = [os.path.join(B, "llsym"), bcs[profile], name, "--time", "200", "--out", fixed]
        for k, h in v["inputs"].items():
            cmd += ["--fix", f"{k}={h}"]
        if v["schedule"]:
            cmd += ["--schedule", ",".join(map(str, v["schedule"]))]
        subprocess.run(["bash", "-c", 'ulimit -s unlimited; exec "$@"', "x", *cmd], timeout=300)
        j = json.load(open(fixed))
        for w in j["violations"]:
            if w["kind"] == v["kind"]:
                return True, "concrete execution of the compiled code by the engine: " + w["kind"] + ": " + w["msg"], tried
        tried.append("engine, concrete: no violation")
    return False, "", tried

def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        global TIER, BUDGET
        TIER = sys.argv[sys.argv.index("--tier") + 1]
        BUDGET = 820 if TIER == "quick" else 6 * 3600
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    t0 = time.time()
    profiles = ("dev", "release")
    try:
        built, hs = bld.build(profiles)
    except bld.BuildError as e:
        print(f"ERROR: cannot build: {e}")
        return 2
    build_s = time.time() - t0
    bcs = {p: built[p][0] for p in profiles}
    exes = {p: built[p][1] for p in profiles}
    d = os.path.join(B, "out", prop)
    os.makedirs(d, exist_ok=True)
    if prop == "M01" and bld.MACROS_ERROR:
        print("The macros of /repo cannot be compiled as an ordinary library:\n" + bld.MACROS_ERROR)
        return 2
    if bld.C_ERROR.get(prop):
        f = os.path.join(d, "violation-header.txt")
        open(f, "w").write(bld.C_ERROR[prop] + "\n")
        print(bld.C_ERROR[prop])
        print(f"VIOLATION property={prop} replay={f}")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [bld.C_ERROR[prop][:500]]},
                   "assumptions": [], "wall_s": round(time.time() - t0, 1), "violations": 1}, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
        return 1
    jobs = []
    for n, m in hs.items():
        if prop in m["props"] and (m["tier"] == "quick" or TIER == "thorough") and (not only or n in only):
            for p in m["profiles"].split(","):
                jobs.append((n, p))
    if not jobs:
        print(f"ERROR: no harness for {prop}")
        return 2
    jobs.sort(key=lambda j: -float(hs[j[0]]["time"]))
    results = {}
    def run(j):
        n, p = j
        left = BUDGET - (time.time() - t0)
        return j, engine(bcs[p], n, hs[n], os.path.join(d, f"{n}.{p}.json"), left)
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "8"))) as ex:
        for j, r in ex.map(run, jobs):
            results[j] = r
    problems, viol, known_hit = [], [], []
    known = known_findings()
    traces = mismatches = 0
    for (n, p), r in results.items():
        if r.get("fatal"):
            problems.append(f"{n} ({p}): {r['fatal']}")
            continue
        if r["incomplete"]:
            problems.append(f"{n} ({p}): incomplete: {r['incomplete']} after {r['wall_s']:.0f} s, {r['paths']} paths")
        for e, c in r["errors"].items():
            problems.append(f"{n} ({p}): engine: {e} (x{c})")
        if not r["violations"]:
            for c in hs[n]["covers"]:
                if not r["covers"].get(c):
                    problems.append(f"{n} ({p}): vacuous: '{c}' is never reached")
        # passing paths, natively
        cases = [(n, s["inputs"]) for s in r["samples"]]
        if cases and "novalidate" not in hs[n]:
            nat = native(exes[p], cases)
            for s, o in zip(r["samples"], nat):
                traces += 1
                if o[0] != s["outcome"] or o[2] != s["logs"]:
                    mismatches += 1
                    if o[0] in ("assert", "panic", "memory", "died", "abort"):
                        # the real code fails where the engine saw none: the engine is the one that is wrong,
                        # but the failure is real
                        viol.append((n, p, {"kind": "native", "msg": f"{o[0]} {o[1]}", "where": "", "inputs": s["inputs"], "schedule": []}))
                    else:
                        problems.append(f"{n} ({p}): native run differs: {o} instead of {s['outcome']} {s['logs']} on {s['inputs']}")
        for v in r["violations"]:
            viol.append((n, p, v))
    confirmed, done = [], set()
    for i, (n, p, v) in enumerate(viol):
        k = next((k for k in known if k[0] == prop and k[1] == n and k[2] == v["kind"] and k[3] in v["where"] and k[4] == v["msg"]), None)
        if k:
            if k not in known_hit:
                known_hit.append(k)
            continue
        if len(confirmed) >= 6 or (n, v["kind"], v["msg"]) in done:
            continue
        ok, how, tried = replay(v, n, p, exes, bcs, d, i)
        if ok:
            done.add((n, v["kind"], v["msg"]))
            f = os.path.join(d, f"violation-{n}-{p}-{i}.json")
            json.dump({"property": prop, "harness": n, "profile": p, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"],
                       "schedule": v["schedule"], "reproduced": how,
                       "replay": "echo '" + n + "".join(f" {a}={b}" for a, b in v["inputs"].items() if b) + f"' | {exes[p]}"}, open(f, "w"), indent=1)
            confirmed.append(f)
            print(f"{n} ({p}): {v['kind']}: {v['msg']}\n  at {v['where']}\n  reproduced: {how}")
            print(f"VIOLATION property={prop} replay={f}")
        else:
            problems.append(f"{n} ({p}): not reproduced natively: {v['kind']}: {v['msg']} at {v['where']} inputs {v['inputs']} ({'; '.join(tried)})")
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k[1]}: {k[2]}: {k[4]} (in {k[3]})")
    rs = [r for r in results.values() if not r.get("fatal")]
    tot = lambda k: sum(r[k] for r in rs)
    fns = sorted({f for r in rs for f in r["functions"] if "safer_ffi" in f})
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("instructions"), "traces_validated_against_impl": traces - mismatches,
            "samples": [{"harness": n, "profile": p, **s} for (n, p), r in results.items() if not r.get("fatal") for s in r["samples"][-1:]][:6],
            "paths": tot("paths"), "forks": tot("forks"), "schedule_forks": tot("schedule_forks"), "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "query_cache_hits": tot("query_cache_hits"), "model_reuses": tot("model_reuses"), "assertions_decided": tot("asserts"), "solver_seconds": round(tot("solver_s"), 2),
            "harnesses": {f"{n} ({p})": {"bounds": hs[n]["bounds"], "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall_s"], 2), "reached": r["covers"]}
                          for (n, p), r in results.items() if not r.get("fatal")},
            "functions_encoded": len({f for r in rs for f in r["functions"]}), "safer_ffi_functions_encoded": fns[:400],
            "exhaustive": not problems,
        },
        "assumptions": ["bounds of each harness as listed; what lies outside is not claimed", "sequentially consistent atomics; allocation never fails; x86_64 Linux, rustc 1.72.1, dev (opt-level 0, overflow checks) and release (opt-level 3) profiles",
                        "trusted: rustc's and clang's translation to LLVM bitcode, the engine llsym, Z3"],
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for x in problems:
        print("PROBLEM:", x)
    print(f"{prop}: {len(results)} runs, {tot('paths')} paths, {tot('queries')} queries, solver {tot('solver_s'):.1f} s, {traces} native comparisons, build {build_s:.0f} s, total {time.time() - t0:.0f} s")
    if confirmed:
        return 1
    if problems:
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())

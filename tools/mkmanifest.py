#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the annotations of the harnesses."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import build
hs = build.harnesses()
NA = {
 "J01": "the Node.js back end needs the `js` feature, whose napi dependency is a git fork that is not in the offline cargo cache: neither the code nor its callers can be compiled here, so there is no intermediate representation to execute",
}
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    mine = {n: m for n, m in hs.items() if p["id"] in m["props"]}
    if not mine or p["id"] in NA:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    q = [f"{m['bounds']}" for n, m in mine.items() if m["tier"] == "quick"]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the compiled code (LLVM bitcode) with an SMT solver (Z3)",
        "level": "model_checking",
        "level_note": "Decided by Z3 for every value within the bounds, on the bitcode of the current tree in the dev and release profiles; nothing is claimed outside the bounds. Bounds: " + "; ".join(q)
            + ". Trusted: rustc/clang's translation to bitcode, the engine llsym (a sample of its passing paths is compared with native runs on every check), Z3.",
    })
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])

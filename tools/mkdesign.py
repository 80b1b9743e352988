#!/usr/bin/env python3
"""Writes the parts of DESIGN.md that follow from the harnesses: one section per property with its harnesses and bounds."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build
HOW = json.load(open(os.path.join(V, "tools/how.json")))
hs = build.harnesses()
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n\n{HOW[p['id']]}\n")
    for n, m in hs.items():
        if p["id"] in m["prop"].split(","):
            out.append(f"* `{n}`{' (thorough)' if m.get('tier') == 'thorough' else ''}: {m['bounds']}")
    out.append("")
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
i, j = d.index(a) + len(a), d.index(b)
open(os.path.join(V, "DESIGN.md"), "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])

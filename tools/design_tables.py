#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between their marks): costs from evidence/*.json of the last quick runs,
planted bugs from seeds.py and tools/seed_results.txt, defects from known_findings.json."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS

def put(s, mark, rows):
    return re.sub(rf"(<!-- {mark} -->\n).*?(<!-- /{mark} -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)

rows = ["| property | entries | paths | assertions decided | by rewriting | solver queries | solver s | wall s |", "|---|---|---|---|---|---|---|---|"]
tot = [0] * 7
for p in sorted(glob.glob(os.path.join(V, "evidence/C*.json"))):
    d = json.load(open(p))
    if d.get("tier") != "quick":
        continue
    e = d["coverage"]["entry_points"]
    r = [len(e)] + [sum(x[k] for x in e) for k in ("paths", "assertions_decided", "by_rewriting", "solver_queries")]
    r += [round(sum(x["solver_ms"] for x in e) / 1000, 1), round(d["wall_s"], 1)]
    tot = [round(a + b, 1) for a, b in zip(tot, r)]
    rows.append("| " + " | ".join([d["property"]] + [str(x) for x in r]) + " |")
rows.append("| all | " + " | ".join(str(x) for x in tot) + " |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = put(s, "costs", rows)
got = {}
f = os.path.join(V, "tools/seed_results.txt")
for l in open(f) if os.path.exists(f) else []:
    x = l.split(None, 1)
    if len(x) == 2:
        got[x[0]] = x[1].strip()
rows = ["| change | property | needs | caught |", "|---|---|---|---|"]
for x in SEEDS:
    rows.append(f"| {x['id']} | {x['property']} | {x['needs']} | {got.get(x['id'], '')} |")
s = put(s, "seeds", rows)
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
s = put(s, "fixes", ["* " + x["status"].replace("fixed: property=", "") for x in k if x["status"].startswith("fixed")])
s = put(s, "findings", [f"* {x['property']} {x['what']}" for x in k if x["status"] == "finding"])
open(p, "w").write(s)

#!/usr/bin/env python3
"""Single source of properties.jsonl, bounds.json and MANIFEST.json (run after editing)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, B, NA = [], {}, {}
E = "ethereum-consensus/src/"


def prop(id, title, statement, over, text, why, mech, state=None, observe=None, bounds="", outside="", assumptions=None, note=""):
    where = lambda w: w if w.startswith("beacon-api-client/") else E + w
    mech = [{"name": n, "where": where(w)} for n, w in mech]
    files = sorted({m["where"].split(":")[0].rstrip("/") for m in mech})
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": where(w)} for n, m, w in state]
    if observe:
        a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
    B[id] = {"bounds": bounds, "outside": outside, "assumptions": assumptions or [], "note": note}


def na(id, reason):
    NA[id] = reason


exec(open(os.path.join(V, "tools", "catalogue.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
json.dump(B, open(os.path.join(V, "bounds.json"), "w"), indent=1, sort_keys=True)
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    ok = os.path.exists(os.path.join(V, "expect", i + ".json"))
    if not ok:
        NA.setdefault(i, "no check yet: the harness for this property is not finished")
    if i in NA:
        continue
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": "symbolic execution of the LLVM IR compiled from the current sources; assertions decided by Z3 over all inputs in the bounds",
        "level": "model_checking",
        "level_note": "bounded, solver-decided: " + B[i]["bounds"] + " Outside: " + B[i]["outside"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed, not claimed:", sorted(NA))

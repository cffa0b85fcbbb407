#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
src = "".join(open(os.path.join(V, "harness", f)).read() for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".go"))
done = set(re.findall(r"^func (C\d\d)_", src, re.M))
out, checks = [], []
for p in PROPS:
    if p["id"] not in done:
        continue
    assert len(p["title"]) <= 80, p["id"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "symbolic execution of the real Go code (go/ssa) with an SMT solver (z3); counterexamples replayed natively",
                   "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
    for o in NA:
        f.write(json.dumps(o["prop"], ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks,
     "not_applicable": [{"property": o["prop"]["id"], "reason": o["reason"]} for o in NA]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
# generated harness registry
names = sorted(set(re.findall(r"^func (C\d\d_\w+)\(\)", src, re.M)))
print(len(out), "properties", len(names), "harnesses")

# DESIGN.md: hand-written head and tail, with the bounds, fixes and planted bugs filled in
T = lambda f: open(os.path.join(V, "tools", f)).read()
b = "## 5. Bounds, per property\n\nGenerated from the harnesses; the evidence of every run repeats them.\n\n"
for p in PROPS:
    b += f"**{p['id']} {p['title']}**\n"
    for k, n in (("BOUND", "bound"), ("OUTSIDE", "outside")):
        for x in re.findall(rf"^// {k} {p['id']}: (.*)$", src, re.M):
            b += f"- {n}: {x}\n"
    b += "\n"
kf = json.load(open(os.path.join(V, "known_findings.json")))
fx = "".join("- " + x[len("fixed: property="):] + "\n" for x in kf["fixed"])
sd = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(os.path.join(V, "tools", "caught.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    sd += f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run yet')} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(T("design_head.md") + b + T("design_tail.md").replace("FIXES\n", fx).replace("SEEDS\n", sd))

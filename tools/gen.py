#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the table below (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS
from spec import SPEC
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for s in SPEC:
        p = {k: s[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
TECH = "solver-based symbolic execution of the repository's LLVM bitcode (own engine over Z3): every input, schedule and fault within the bounds is a symbolic variable; counterexamples are replayed natively under ASan/UBSan"
checks, na = [], []
for s in SPEC:
    i = s["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": TECH, "level": "model_checking",
                       "level_note": "Bounded: " + PROPS[i]["bounds"] + ". Outside: " + PROPS[i]["outside"] + "."})
    else:
        na.append({"property": i, "reason": s.get("na", "machinery not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. The engine is built by setup_cmd or by the first check; every check compiles /repo's current sources to bitcode and natively."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
COST = dict(P01=19, P02=9, P03=73, P04=8, P05=3, P06=50, P07=20, P08=45, P09=23, P10=40, P11=2, P12=7, P13=6, P14=50, P15=3, P16=50, P17=30, P18=60, P19=80, P20=65, P21=12, P22=75, P23=25, P24=45)
import re
def fill(mo):
    k = mo.group(1)
    if k == "fixed":
        return "\n".join("* " + re.sub(r"fixed: property=(P\d+) (\w+) ", r"**\1** `\2` ", x) for x in json.load(open(V + "/known_findings.json"))["fixed"])
    if k == "seeded":
        r = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
        for d in sorted(os.listdir(V + "/seeded")):
            m = json.load(open(V + "/seeded/%s/meta.json" % d))
            r.append("| %s | %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
        return "\n".join(r)
    if k.startswith("out:"): return PROPS[k[4:]]["outside"]
    if k.startswith("cost:"): return "%d s" % COST[k[5:]]
    return PROPS[k]["bounds"]
open(V + "/DESIGN.md", "w").write(re.sub(r"\{\{([\w:]+)\}\}", fill, open(V + "/tools/design.in.md").read()))
print(len(checks), "checks", len(na), "not applicable")

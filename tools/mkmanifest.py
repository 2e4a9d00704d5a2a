#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py: a property with a plan is claimed, others are listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} --tier quick",
                           thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
                           technique="TLA+ model checked with TLC (" + ", ".join(sorted({m["spec"] for m in PLAN[i].get("mc", [])})) + "); "
                           "traces of the real library validated by TLC against " + ", ".join(sorted({s["spec"] for s in PLAN[i]["sections"]}))
                           + ("; programs generated by TLC from " + ", ".join(g["spec"] for g in PLAN[i]["gen"].values()) if "gen" in PLAN[i] else ""),
                           level="model_checking", level_note=NOTES.get(i, "")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
drivers = sorted({PLAN[i]["driver"] for i in PLAN})
m = dict(version=1, setup_cmd="python3 bin/vbuild.py all", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check for every mgv/checks/cNN.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mgv.budgets import BUDGETS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mgv", "checks", i.lower() + ".py")) or i not in BUDGETS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    b = BUDGETS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run_check.py {i}",
        "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing (Hypothesis): " + b["oracle"],
        "level": "exploration",
        "level_note": b.get("note", "Generated-input search with shrinking: no counterexample among the cases counted in the evidence; it does not show absence. ")
                      + "Trusts CPython 3.12, Hypothesis and the oracle.",
    })
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is run_check.py <id>; 8 worker processes, every case in a forked child with its own scratch directory. "
              "--replay FILE re-runs one saved case without Hypothesis. Known findings and fixes: known_findings.json. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

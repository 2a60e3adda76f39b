#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=PLAN[i].get("technique", "runtime monitoring: reference-model oracle over randomized executions of the real library"),
                           level="exploration", level_note=PLAN[i].get("note", "real code executed on generated admissible inputs and histories; every event judged by an independent oracle; bounded by the number of cases")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=na,
         notes="All checks build /repo's sources out of tree into /verif/build. Known findings: known_findings.jsonl. No hooks are needed: monitors subclass the public classes.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + findings and fixes (known_findings.jsonl) + planted bugs (tools/planted.json)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = [json.loads(l) for l in open(H + "/known_findings.jsonl") if l.strip()]
o = open(H + "/tools/design_head.md").read()
o += "\n## 4. Genuine defects left open (known findings)\n\n"
seen = {}
for e in k:
    if e["status"] == "open": seen.setdefault((e["property"], e["what"]), []).append(e["key"])
for (p, w), ks in seen.items(): o += f"* **{p}** {w} (`{'`, `'.join(ks)}`)\n"
o += "\nThe flat of a vector is an interface of the base class; giving every non-Euclidean extrinsic metric its own flat (and a matching rank-one update) is a feature, not a small repair; the quasi-Newton\nsolvers are used with intrinsic coordinates there, where the finding does not arise.\n"
o += "\n## 5. Genuine defects repaired (`fix:` commits in /repo)\n\n| property | commit | what failed |\n|---|---|---|\n"
for e in k:
    if e["status"] == "fixed":
        w = e["what"].split(None, 3)[3].replace("|", "\\|"); o += f"| {e['property']} | {e['commit']} | {w} |\n"
p = json.load(open(H + "/tools/planted.json"))
o += "\n## 6. Planted bugs\n\n`seeded/<id>` (patch, demo, meta). Every one compiles, passes the tests, and is caught by the check named:\n\n| id | caught by | needs |\n|---|---|---|\n"
for d in p["seeded"]: o += "| " + " | ".join(d) + " |\n"
o += "\nBesides, several hundred one-line mutants were tried in scratch copies while the checks grew (same rules: compile, tests pass). Survivors were either shown equivalent\n(efficiency only, unreachable, or rounding-level) or led to the strengthening listed:\n\n"
for d in p["strengthened"]: o += f"* {d}\n"
open(H + "/DESIGN.md", "w").write(o)

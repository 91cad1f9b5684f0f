#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
exec(open(f"{here}/tools/claims.py").read())  # CLAIMS, NOT, HOOKS
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh builds the harness crate in harness/ against /repo and runs one property; the tier comes from VERIF_TIER unless it is given."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")

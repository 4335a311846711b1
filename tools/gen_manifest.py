#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: property -> (technique, level, note)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in CLAIMED:
        t, lv, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet: its monitor is still being built")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed from outside the process (real databases, recording wire-protocol servers) or through exported functions. Each check builds the tools and the harness from /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

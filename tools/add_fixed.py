#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT WHAT: record a repaired defect in known-findings.json."""
import json,sys
p,c,w=sys.argv[1:4]
k=json.load(open('/verif/known-findings.json'))
k.append({"property":p,"id":"fixed","what":w,"status":f"fixed: property={p} {c} {w}"})
json.dump(k,open('/verif/known-findings.json','w'),indent=1); open('/verif/known-findings.json','a').write("\n")

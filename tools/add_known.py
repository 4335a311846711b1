#!/usr/bin/env python3
"""add_known.py PROPERTY ID WHAT: list a genuine defect that is recorded rather than repaired."""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known-findings.json')
d=json.load(open(p))
prop,id_,what=sys.argv[1:4]
d=[k for k in d if not(k['property']==prop and k['id']==id_)]
d.append({"property":prop,"id":id_,"status":"known","what":what})
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write('\n')

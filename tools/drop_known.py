#!/usr/bin/env python3
"""drop_known.py ID PROPERTY...: take a repaired defect off the list of known ones."""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known-findings.json')
d=json.load(open(p)); n=len(d)
d=[k for k in d if not(k['property'] in sys.argv[2:] and k['id']==sys.argv[1])]
print(n-len(d),'removed')
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')

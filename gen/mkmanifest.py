#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json,os,sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,H+'/bin')
from plan import PLAN
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
DEF='trace validation of the real library against the TLA+ specification (TLC); exhaustive TLC models of the same operators'
NOTE='bounded: every recorded call of every operation in the property must be an action of the specification; inputs are drawn per operation from seeded value classes, in several build configurations and all three APIs'
checks=[];na=[]
for p in props:
    i=p['id']
    if i in PLAN:
        pl=PLAN[i]
        c=dict(property=i,quick_cmd='bin/check '+i,thorough_cmd='bin/check %s --tier thorough'%i,technique=pl.get('technique',DEF),level=pl.get('level','model_checking'),level_note=pl.get('note',NOTE))
        checks.append(c)
    else: na.append(dict(property=i,reason='check under construction'))
json.dump(dict(version=1,setup_cmd='bin/check --setup',checks=checks,not_applicable=na),open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))

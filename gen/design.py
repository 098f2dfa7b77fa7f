#!/usr/bin/env python3
# DESIGN.md = gen/design_head.md + gen/design_facts.md + findings + table of planted bugs + gen/design_tail.md
import json,os,glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r=lambda p:open(os.path.join(R,p)).read().rstrip('\n')
out=[r('gen/design_head.md'),r('gen/design_facts.md'),'']
out+=['## Genuine defects found','', 'All repaired by `fix:` commits in /repo (`KNOWN_FINDINGS.txt`); none is left open.','','| property | commit | what failed |','|---|---|---|']
for l in r('KNOWN_FINDINGS.txt').split('\n'):
    if l.startswith('fixed:'):
        _,p,c,t=l.split(' ',3); out.append('| %s | %s | %s |'%(p.split('=')[1],c,t.replace('|','\\|')))
out+=['','## Planted bugs','','Each directory of `seeded/` is a change that compiles, passes the 1128 tests and breaks a property. Every one but',
'`c01-divs-recip` (subnormal operands, whose quotient the specification leaves open) is caught by the quick check of its own property (column 1).','','| property | planted bug | needs |','|---|---|---|']
for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(d)); m['id']=os.path.basename(os.path.dirname(d))
    out.append('| %s | `%s` | %s |'%(m['property'],m['id'],m['needs'].replace('|','\\|').replace('\n',' ')[:170]))
if os.path.exists(R+'/gen/design_tail.md'): out+=['',r('gen/design_tail.md')]
open(R+'/DESIGN.md','w').write('\n'.join(out)+'\n')

#!/usr/bin/env python3
"""Development-time: extract the signatures of every glm_/glmc_/glms_ function from the headers."""
import re,subprocess,json,sys
INC='/repo/include'
src='''#define CGLM_CLIPSPACE_INCLUDE_ALL
#define CGLM_DEFINE_PRINTS
#include <cglm/cglm.h>
#include <cglm/call.h>
#include <cglm/struct.h>
#include <cglm/struct/aabb2d.h>
#include <cglm/color.h>
#include <cglm/handed/euler_to_quat_rh.h>
#include <cglm/handed/euler_to_quat_lh.h>
#include <cglm/struct/handed/euler_to_quat_rh.h>
#include <cglm/struct/handed/euler_to_quat_lh.h>
'''
import os,glob
for g in sorted(glob.glob(INC+'/cglm/struct/clipspace/*.h'))+sorted(glob.glob(INC+'/cglm/call/clipspace/*.h')):
    src+='#include <%s>\n'%g[len(INC)+1:]
out=subprocess.run(['gcc','-E','-x','c','-I',INC,'-'],input=src,capture_output=True,text=True)
assert out.returncode==0,out.stderr[:2000]
cur=None; body=[]
for line in out.stdout.split('\n'):
    m=re.match(r'# \d+ "([^"]*)"',line)
    if m: cur=m.group(1); continue
    if line.startswith('#'): continue
    if cur and '/cglm/' in cur: body.append((cur,line))
# join text but keep file per char offset
text=''; marks=[]
for f,l in body:
    marks.append((len(text),f)); text+=l+'\n'
import bisect
offs=[m[0] for m in marks]
def fileat(o): return marks[bisect.bisect_right(offs,o)-1][1].split('/include/')[1]
res={'glm':{},'glmc':{},'glms':{}}
for m in re.finditer(r'([\w \*\t\n]+?)\b(glm|glmc|glms)_(\w+)\s*\(([^;{}()]*(?:\[[^\]]*\][^;{}()]*)*)\)\s*([;{])',text):
    pre,ns,name,args,end=m.groups()
    pre=' '.join(w for w in pre.split() if w not in('static','inline','extern','__attribute','__attribute__'))
    if ns=='glmc' and end!=';': continue
    if ns!='glmc' and end!='{': continue
    if not pre or 'return' in pre.split() : continue
    ps=[]
    a=args.strip()
    if a and a!='void':
        for x in a.split(','):
            x=' '.join(x.replace('__restrict','').replace('restrict','').split())
            mm=re.match(r'^(.*?)(\w+)((?:\[\d*\])*)$',x)
            t,n,arr=mm.groups(); t=t.strip()
            ps.append([t+arr,n])
    if name in res[ns] : continue
    res[ns][name]=dict(ret=pre,params=ps,file=fileat(m.start(2)))
json.dump(res,open('/tmp/sigs.json','w'),indent=0)
print({k:len(v) for k,v in res.items()})

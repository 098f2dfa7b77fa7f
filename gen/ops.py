#!/usr/bin/env python3
"""Development-time generator: classifies every public operation (family, property, argument tags) and
writes harness/gen/ops.inc (op table) and harness/gen/w_{i,c,s}.inc (uniform call wrappers for the
inline, call and struct APIs).  Its outputs are committed; checks never run it."""
import json,re,sys,os
sigs=json.load(open('/tmp/sigs.json'))
G,C,S=sigs['glm'],sigs['glmc'],sigs['glms']
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','gen')

PT={'vec2':(2,1),'vec3':(3,1),'vec4':(4,4),'versor':(4,4),'mat2':(4,4),'mat3':(9,1),'mat4':(16,8),
    'mat2x3':(6,1),'mat2x4':(8,4),'mat3x2':(6,1),'mat3x4':(12,4),'mat4x2':(8,1),'mat4x3':(12,1),
    'ivec2':(2,1),'ivec3':(3,1),'ivec4':(4,1),'vec3[2]':(6,1),'vec2[2]':(4,1),'vec4[6]':(24,4),'vec4[8]':(32,4),'vec4[4]':(16,4),
    'float *':(1,1),'int *':(1,1),'float[6]':(6,1),'int[3]':(3,1)}
DIM={'mat2':(2,2),'mat3':(3,3),'mat4':(4,4),'mat2x3':(2,3),'mat2x4':(2,4),'mat3x2':(3,2),'mat3x4':(3,4),'mat4x2':(4,2),'mat4x3':(4,3)}

VG='normalize normalize_to scale_as angle crossn rotate rotate_m4 rotate_m3 proj center ortho faceforward reflect refract'.split()
VC='eq eq_eps eq_all eqv eqv_eps max min isnan isinf isvalid sign abs fract floor mods sqrt steps stepr step swizzle'.split()
VI='lerp mix lerpc mixc smoothinterp smoothinterpc smoothstep smoothstep_uni'.split()
CLIPBASE='frustum ortho ortho_aabb ortho_aabb_p ortho_aabb_pz ortho_default ortho_default_s perspective perspective_default perspective_resize persp_move_far persp_decomp persp_decompv persp_decomp_x persp_decomp_y persp_decomp_z persp_decomp_far persp_decomp_near persp_sizes persp_fovy persp_aspect lookat look look_anyup unprojecti unproject project project_z'.split()
C14='lookat look look_anyup'.split()
C17='unprojecti unproject project project_z'.split()
C15='frustum ortho ortho_aabb ortho_aabb_p ortho_aabb_pz ortho_default ortho_default_s perspective perspective_default perspective_resize'.split()

def classify(name):
    """-> (fam,n,m,f,[props],flags) or None"""
    if 'sse2' in name or name in('arch_print','arch_print_name'): return None
    if name.endswith('_print'): return None
    m=re.match(r'^vec([234])(?:_(\w+))?$',name)
    if name in('cross','dot','normalize','normalize_to'):
        return ('vgeom' if 'norm' in name else 'varith',3,0,name,['C05' if 'norm' in name else 'C01'],'')
    if m:
        n=int(m.group(1)); f=m.group(2) or 'ctor'
        if f in VG: return ('vgeom',n,0,f,['C05'],'')
        if f in VC: return ('vclass',n,0,f,['C03','C04'] if f in('step','steps','stepr') else ['C03'],'x')
        if f in VI: return ('vinterp',n,0,f,['C04'],'')
        return ('varith',n,0,f,['C01'],'x')
    m=re.match(r'^ivec([234])(?:_(\w+))?$',name)
    if m: return ('ivec',int(m.group(1)),0,m.group(2) or 'ctor',['C02','C03'] if re.match(r'n?eq|sign|abs|complement|swizzle',m.group(2) or '') else ['C02'],'')
    m=re.match(r'^mat(\d)(?:x(\d))?_(\w+)$',name)
    if m:
        c=int(m.group(1)); r=int(m.group(2) or c); f=m.group(3)
        if f=='textrans': return ('aff2',c,0,f,['C09'],'')
        if f=='quat': return ('qrot',c,0,'mat_quat',['C11'],'')
        if f in('det','inv','inv_fast'): return ('matinv',c,r,f,['C07'],'')
        return ('mat',c,r,f,['C06'],'')
    file=G.get(name,{}).get('file','')
    if 'affine2d' in file: return ('aff2',3,0,name,['C09'],'')
    if 'affine' in file: return ('aff',4,0,name,['C08'],'')
    if name.startswith('quat'):
        f=name[5:] if name.startswith('quat_') else name
        if f in('lerp','lerpc','nlerp','slerp','slerp_longest'): return ('qint',4,0,f,['C12'],'')
        if f=='rotatev': return ('qrot',4,0,f,['C10','C11'],'')
        if f in('mat4','mat4t','mat3','mat3t','look','for','forp','rotate','rotate_at','rotate_atm'): return ('qrot',4,0,f,['C11'],'')
        return ('quat',4,0,f,['C10'],'')
    if name.startswith('euler'):
        h=-1; f=name
        mm=re.match(r'^(.*)_(rh|lh)$',name)
        if mm: f=mm.group(1); h={'rh':0,'lh':1}[mm.group(2)]
        return ('euler',h,0,f,['C13'],'')
    mm=re.match(r'^(\w+?)(?:_(rh|lh))?(?:_(no|zo))?$',name)
    if mm and mm.group(1) in CLIPBASE:
        b=mm.group(1); h={None:-1,'rh':0,'lh':1}[mm.group(2)]; d={None:-1,'no':0,'zo':1}[mm.group(3)]
        if b in C14: return ('view',h,d,b,['C14'],'')
        if b in C17: return ('proj',h,d,b,['C17'],'')
        if b=='perspective_resize': return ('clip',h,d,b,['C15','C16'],'')
        if b in C15: return ('clip',h,d,b,['C15'],'')
        return ('clip',h,d,b,['C16'],'')
    if name=='pickmatrix': return ('proj',-1,-1,name,['C17'],'')
    if name.startswith('frustum_') or name in('plane_normalize','aabb_frustum'): return ('frus',0,0,name,['C18'],'')
    if name.startswith('aabb2d_'): return ('box',2,0,name[7:],['C19'],'')
    if name.startswith('aabb_'): return ('box',3,0,name[5:],['C19'],'')
    if name.startswith('ray_') or name.startswith('sphere_'): return ('ray',0,0,name,['C20'],'')
    if name.startswith('ease_'): return ('ease',0,0,name[5:],['C21'],'')
    if name in('bezier','hermite','decasteljau','smc'): return ('curve',0,0,name,['C21'],'')
    if name.startswith('perlin_'): return ('noise',int(name[-1]),0,'perlin',['C22'],'')
    if 'util.h' in file or name=='luminance': return ('util',0,0,name,['C04'],'')
    raise SystemExit('unclassified '+name)

# ---- argument tags ---------------------------------------------------------------------------
NAMETAG={'angle':'ANG','rot':'ANG','fovy':'FOVY','aspect':'ASPECT','nearZ':'NEAR','farZ':'FAR','left':'LEFT','right':'RIGHT','bottom':'BOTTOM','top':'TOP',
  't':'T','vp':'VP','axis':'AXIS','eta':'ETA','mask':'MASK','padding':'PAD','deltaFar':'DFAR'}
def tag(name,cl,i,t,p):
    fam,n,m,f,props,fl=cl
    if t in('size_t','uint32_t'): return 'CNT'
    if t=='glm_euler_seq': return 'SEQ'
    if t=='int':
        if p=='mask': return 'MASK%d'%n
        if re.match(r'(col|row)\d',p): return 'IDX%d'%(n if p.startswith('col') else m)
        if fam=='ivec' and f in('divs',): return 'INZ'
        return 'I'
    if fam=='ivec': 
        if f in('div','mod') and i==1: return 'IVNZ'
        return 'IV'
    if t=='int[3]': return 'ORD'
    if t=='int *': return 'IV'
    if fam=='varith': return 'S' if t=='float' else 'V'
    if fam=='vclass': return 'S' if t=='float' else 'V'
    if fam=='vinterp': return ('T' if p=='t' else 'S') if t=='float' else 'V'
    if fam=='vgeom':
        if f=='rotate' and p=='axis': return 'AXIS'
        if f=='refract': return {'v':'UNITM','n':'UNITM','eta':'ETA'}.get(p,'V')
        if f=='reflect' and p=='n': return 'UNITM'
        if t=='float': return 'ANG' if p=='angle' else 'S'
        if t in('mat4','mat3'): return 'TRS' if t=='mat4' else 'TRS3'
        if f in('normalize','normalize_to','scale_as'): return 'VZ'
        return 'V'
    if fam=='mat':
        return 'S' if t=='float' else 'V'
    if fam=='matinv': return 'INV%d'%n if i==0 else 'V'
    if fam=='aff':
        if t=='float': return 'ANG' if p=='angle' else 'S'
        if p=='axis': return 'AXIS'
        if p=='pivot': return 'V'
        if t=='mat4':
            if p=='dest' or f.endswith('_make') or p=='r': return 'V'
            if f in('mul','mul_rot'): return 'AFF' if f=='mul' else ('AFF' if p=='m1' else 'ROTM')
            if f=='inv_tr': return 'RIGID'
            if f.startswith('decompose') or f=='uniscaled': return 'TRS'
            if f.startswith('rotated') or f.startswith('spinned'): return 'AFF'
            if f in('rotate','rotate_x','rotate_y','rotate_z','rotate_at','rotate_atm','spin','rotated','rotated_x','rotated_y','rotated_z','rotated_at','spinned','translate','translated','translate_to','translated_to'): return 'AFFM'
            return 'AFFM'
        return 'V'
    if fam=='aff2':
        if t=='float': return 'ANG' if p in('angle','rot') else 'S'
        return 'V' 
    if fam=='quat':
        if f=='quatv' and p=='axis': return 'AXIS'
        if f=='quat': return 'ANG' if p=='angle' else 'AXS'
        if f=='from_vecs': return 'UNITM2'
        if t=='float': return 'ANG' if p=='angle' else 'S'
        if f in('angle','axis','imaglen','imagn'): return 'UQ' if p=='q' else 'V'
        return 'Q' if t=='versor' and p!='dest' else 'V'
    if fam=='qrot':
        if f=='mat_quat': return 'ROTQ%d'%n if i==0 else 'V'
        if p in('q','ori'): return 'Q' if f=='rotatev' else 'UQ'
        if f in('for','forp'): return 'UNIT' if p=='dir' else 'V'
        if f=='rotate' and p=='m': return 'V'
        return 'V'
    if fam=='qint': return 'T' if t=='float' else ('UQ' if p in('from','to') else 'V')
    if fam=='euler':
        if f=='euler_angles' and i==0: return 'ROTE'
        if p=='angles': return 'ANGV'
        return 'V'
    if fam=='view':
        return 'V'
    if fam=='clip':
        if p=='proj': return 'PROJ'
        if p=='box': return 'BOX'
        if p=='size': return 'POS'
        if t=='float': return NAMETAG[p]
        return 'V'
    if fam=='proj':
        if p=='vp': return 'VP'
        if p=='size': return 'SIZE2'
        if p=='m': return 'MVP'
        if p=='invMat': return 'MVPI'
        if name.startswith('unproj') and p=='pos': return 'WIN'
        return 'V'
    if fam=='frus':
        if p=='m': return 'MVP' if f=='frustum_planes' else 'VIEW'
        if p=='invMat': return 'MVPI'
        if p=='corners': return 'CORN'
        if p=='planes': return 'PLANES'
        if p=='plane': return 'VZ'
        if p=='box' and f=='aabb_frustum': return 'BOX'
        if t=='float': return 'POS'
        return 'V'
    if fam=='box':
        if f in('isvalid','merge','copy'): return 'BOXI' if p!='dest' else 'V'
        if f in('crop','crop_until','aabb','contains'): return 'BOX' if p!='dest' else 'V'
        if p in('s','c'): return 'SPH'
        if t in('vec3[2]','vec2[2]'): return 'BOX' if p!='dest' else 'V'
        if t in('mat4','mat3'): return 'V'
        return 'VL'
    if fam=='ray':
        if name.startswith('sphere_') and t=='vec4': return 'SPHR' if p!='dest' else 'V'
        if name=='ray_sphere': return {'s':'SPHR','dir':'UNITM','origin':'V'}.get(p,'V')
        if name=='ray_triangle': return 'VL'
        return 'S' if t=='float' else 'V'
    if fam=='ease': return 'T01'
    if fam=='curve': return 'T' if p in('s','prm') and f!='decasteljau' else ('T01' if f=='decasteljau' and p=='prm' else ('S' if t=='float' else 'V'))
    if fam=='noise': return 'NOISE'
    if fam=='util': return 'T' if p=='t' else ('S' if t=='float' else 'V')
    return 'V'
def words(name,t,p,cl):
    if t=='const float *' or (t=='float *' and p in('v','src')) or t=='int *':
        fam,n,m,f=cl[:4]
        if fam=='mat': return n*m,1
        return n,1
    if re.match(r'i?vec\d \*',t): return 9*PT[t[:-2]][0],PT[t[:-2]][1]
    if t in('mat4 *','mat3 *','mat2 *','versor *'): return 80 if t=='mat4 *' else 63 if t=='mat3 *' else 9*PT[t[:-2]][0], PT[t[:-2]][1]
    return PT[t]
OUTN=('dest',)
def role(name,cl,i,t,p,params):
    """o = pure destination, u = input and destination, i = input"""
    fam,n,m,f=cl[:4]
    ctype=t
    names=[q for _,q in params]
    if t in('float','int','size_t','uint32_t','glm_euler_seq'): return 'i'
    if fam in('varith','ivec') and p=='dest':
        return 'u' if re.match(r'^(add|sub|mul|max|min)(add|sub)s?$',f) else 'o'
    if name in('pickmatrix','mat4_ins3') and p=='dest': return 'u'
    if p=='dest': return 'o'
    if 'dest' in names: return 'i'
    if f in('swapf','make_rad','make_deg','swapf'): return 'u'
    if fam=='clip' and t=='float *': return 'o'
    if name in('ray_triangle','ray_sphere'): return 'o' if t=='float *' else 'i'
    if name=='ray_at': return 'o' if p=='point' else 'i'
    if name.startswith('perspective_resize') and p=='proj': return 'u'
    if name in('cross',): return 'o' if p=='d' else 'i'
    if f=='broadcast': return 'o' if i==1 else 'i'
    if name=='frustum_box': return 'o' if p=='box' else 'i'
    if name=='frustum_corners_at': return 'o' if p=='planeCorners' else 'i'
    if name in('decompose','decompose_rs','decompose_scalev'): return 'i' if i==0 else 'o'
    if G[name]['ret']!='void': return 'i'
    if i==0: return 'u'
    return 'i'

ALIAS={'vec3_dup':'vec3_copy','vec3_flipsign':'vec3_negate','vec3_flipsign_to':'vec3_negate_to','vec3_inv':'vec3_negate','vec3_inv_to':'vec3_negate_to',
 'vec3_mulv':'vec3_mul','vec3_step_uni':'vec3_steps','vec4_dup':'vec4_copy','vec4_dup3':'vec4_copy3','vec4_flipsign':'vec4_negate','vec4_flipsign_to':'vec4_negate_to',
 'vec4_inv':'vec4_negate','vec4_inv_to':'vec4_negate_to','vec4_mulv':'vec4_mul','vec4_step_uni':'vec4_steps','mat3_dup':'mat3_copy','mat4_dup':'mat4_copy',
 'mat4_udup':'mat4_ucopy','mat4_inv_precise':'mat4_inv','aabb2d_size':'aabb2d_diag'}
NOCALL={'vec3_dup','quat_dup'}
for a,b in ALIAS.items():
    G[a]=dict(G[b]); 
    if a not in NOCALL: C[a]=dict(C[b])
    if a in('vec3_step_uni','vec4_step_uni'): S[a]=dict(S[b])
for n in(2,3,4):
    for k in('vec','ivec'):
        for w in('pack','unpack'):
            G['%s%d_%s'%(k,n,w)]=dict(ret='void',params=[['%s%d *'%(k,n),'dest'],['%s%d *'%(k,n),'src'],['size_t','len']],file='struct',structonly=1)
ops=[]
for name in G:
    cl=classify(ALIAS.get(name,name))
    if cl: ops.append((name,cl))
def cexpr(t,i):
    if t=='float': return 'c->f[%d]'%i
    if t in('int',): return 'c->i[%d]'%i
    if t in('size_t','uint32_t'): return '(%s)c->i[%d]'%(t,i)
    if t=='glm_euler_seq': return '(glm_euler_seq)c->i[%d]'%i
    return '(void*)c->p[%d]'%i
def wrap_arr(name,fn,prefix,ret,params):
    if name=='mat4_mulN':
        return 'static void %s_%s(Call*c){ mat4*ms[8]; for(int k=0;k<c->i[1];k++) ms[k]=(mat4*)((float*)c->p[0]+16*(k&3)); %s(ms,(uint32_t)c->i[1],(void*)c->p[2]); }'%(prefix,name,fn)
    if name=='quat_mulN': raise SystemExit
    args=', '.join(cexpr(t,i) for i,(t,p) in enumerate(params))
    call='%s(%s)'%(fn,args)
    if ret=='float': call='c->rf='+call
    elif ret!='void': call='c->ri=(int)'+call
    return 'static void %s_%s(Call*c){ %s; }'%(prefix,name,call)
def skel(t):
    t=t.replace('versors','versor').replace('const ','')
    t=re.sub(r'\b(vec[234]|ivec[234]|mat\d(?:x\d)?)s\b',r'\1',t)
    return t
ISST=re.compile(r'^(i?vec[234]s|versors|mat\d(?:x\d)?s)$')
def wrap_struct(name):
    g=G[name]; s=S[name]; gp=g['params']; sp=s['params']; fn='glms_'+name
    if G[name].get('structonly'): return 'static void s_%s(Call*c){ glms_%s((void*)c->p[0],(void*)c->p[1],(size_t)c->i[2]); }'%(name,name)
    if name=='vec2': return 'static void s_vec2(Call*c){ vec3s a; memset(&a,0,sizeof a); memcpy(&a,c->p[0],8); vec2s r=glms_vec2(a); memcpy(c->p[1],&r,sizeof r); }'
    if name.startswith('perspective_resize'): return 'static void s_%s(Call*c){ mat4s a; memcpy(&a,c->p[1],sizeof a); mat4s r=glms_%s(a,c->f[0]); memcpy(c->p[1],&r,sizeof r); }'%(name,name)
    if name=='pickmatrix':   # an empty region gives the struct API nothing to return
        return 'static void s_pickmatrix(Call*c){ vec2s a, b; vec4s v; memcpy(&a,c->p[0],sizeof a); memcpy(&b,c->p[1],sizeof b); memcpy(&v,c->p[2],sizeof v); if(!(b.raw[0]>0&&b.raw[1]>0)) return; mat4s r=glms_pickmatrix(a,b,v); memcpy(c->p[3],&r,sizeof r); }'
    if name=='mat4_mulN':
        return 'static void s_%s(Call*c){ mat4s v[8]; mat4s*ms[8]; for(int k=0;k<c->i[1];k++){ memcpy(&v[k],(float*)c->p[0]+16*(k&3),sizeof v[k]); ms[k]=&v[k]; } mat4s r=glms_mat4_mulN(ms,(uint32_t)c->i[1]); memcpy(c->p[2],&r,sizeof r); }'%name
    # align struct params to array params as an ordered subsequence (same type, names preferred)
    def ok(a,b): 
        x,y=skel(a[0]),skel(b[0])
        if x==y: return True
        return (y.endswith('[]') and x in(y[:-2]+' *',)) or (x.replace(' ','')==y.replace(' ','')) or (y.endswith(' *') and (x.startswith(y[:-2]+'[') or x==y[:-2])) or (x=='float[6]' and y=='float *') or (x.startswith(y.replace('[]','')) and y.endswith('[]'))
    best=None
    def rec(i,j,acc):
        nonlocal best
        if j==len(sp):
            sc=sum(gp[a][1]==sp[b][1] for b,a in enumerate(acc))
            if best is None or sc>best[0]: best=(sc,list(acc))
            return
        for a in range(i,len(gp)):
            if ok(gp[a],sp[j]): rec(a+1,j+1,acc+[a])
    rec(0,0,[])
    if best is None: return None
    al=best[1]; missing=[i for i in range(len(gp)) if i not in al]
    pre=[];args=[]
    for j,(t,p) in enumerate(sp):
        i=al[j]
        if ISST.match(t):
            pre.append('%s a%d; memcpy(&a%d,c->p[%d],sizeof a%d);'%(t,j,j,i,j)); args.append('a%d'%j)
        elif t in('float','int','size_t','uint32_t','glm_euler_seq'): args.append(cexpr(t,i))
        else: args.append('(void*)c->p[%d]'%i)
    call='%s(%s)'%(fn,', '.join(args)); post=''
    r=s['ret']
    if r=='float': call='c->rf='+call
    elif ISST.match(r):
        if len(missing)==1: dst=missing[0]
        elif len(missing)==0:
            cand=[i for i,(t,p) in enumerate(gp) if p=='dest' and skel(r)==skel(t)] or [i for i,(t,p) in enumerate(gp) if skel(t)==skel(r)]
            dst=cand[0]
        else: return None
        call='%s r=%s'%(r,call); post=' memcpy(c->p[%d],&r,sizeof r);'%dst
        if skel(r)!=skel(gp[dst][0]) : print('NOTE ret type',name,r,gp[dst],file=sys.stderr)
    elif r!='void':
        call='c->ri=(int)'+call
        if missing: print('NOTE missing',name,missing,file=sys.stderr)
    elif missing: return None
    return 'static void s_%s(Call*c){ %s %s;%s }'%(name,' '.join(pre),call,post)

seen=set()
ops.sort(key=lambda x:(x[1][4][0],x[0]))
oi=open(OUT+'/ops.inc','w'); files={k:open(OUT+'/w_%s.inc'%k,'w') for k in 'ics'}
tags=set()
oi.write('/* generated by gen/ops.py: name family n m f ret flags nparams {kind,words,align,tag,role,name}... */\n')
cnt={'i':0,'c':0,'s':0}
nos=[]
wr={'i':{}, 'c':{}, 's':{}}
import collections
byprop=collections.defaultdict(list)
for name,cl in ops:
    g=G[name]; fam,n,m,f,props,fl=cl; ps=[]
    for i,(t,p) in enumerate(g['params']):
        if t in('float',): kind,w,a='F',0,0
        elif t in('int','size_t','uint32_t','glm_euler_seq'): kind,w,a='I',0,0
        elif t=='mat4 *[]': kind,w,a='P',64,8
        else: kind,(w,a)='P',words(name,t,p,cl)
        tg=tag(name,cl,i,t,p); tags.add(tg)
        isint = t.startswith('ivec') or t in('int *','int[3]')
        ps.append("{'%s',%d,%d,T_%s,'%s',%d,\"%s\"}"%(kind,w,a,tg,role(name,cl,i,t,p,g['params']),1 if isint else 0,p))
    rk={'void':'v','float':'f','_Bool':'b','int':'i','glm_euler_seq':'i'}[g['ret']]
    pm=0
    for x in props: pm|=1<<int(x[1:])
    oi.write('OP("%s","%s",%d,%d,"%s",\'%s\',"%s",0x%x,%d,{%s})\n'%(name,fam,n,m,f,rk,fl,pm,len(ps),','.join(ps)))
    ws={} if g.get('structonly') else {'i':wrap_arr(name,'glm_'+name,'i',g['ret'],g['params'])}
    if name in C: ws['c']=wrap_arr(name,'glmc_'+name,'c',g['ret'],g['params'])
    if name in S:
        w=wrap_struct(name)
        if w: ws['s']=w
        else: nos.append(name)
    for k,v in ws.items():
        wr[k][name]=(props,fam,v); cnt[k]+=1
# ---- constants and struct members ---------------------------------------------------------------
# name -> (cl, ret, params, {api:(guard,wrapper)}); recorded like calls without inputs
SPECIAL=[]
def special(name,fam,n,m,f,props,ret,ps,**api): SPECIAL.append((name,(fam,n,m,f,props,''),ret,ps,api))
def vconst(cname,ty,n,m,val,prop,st=None,form='init'):
    """an object constant: GLM_<cname>; ty the array type, st its struct type"""
    isint=ty.startswith('ivec'); w,a=PT[ty]
    dst=[("dest",'P',w,a,'V','o',isint)]
    i=c=None; api={}
    for k,pre in(('i','GLM_'),('s','GLMS_')):
        if k=='s' and not st: continue
        t=ty if k=='i' else st; x=pre+cname
        src='%s x=%s;'%(t,x) if form=='init' else '%s x; x=%s;'%(t,x) if k=='s' else '%s x; memcpy(&x,%s,sizeof x);'%(t,x)
        api[k]='static void %%s(Call*c){ %s memcpy(c->p[0],&x,sizeof x); }'%src
        if k=='i' and form!='init': api[k]=('!defined(__cplusplus)',api[k])          # a C compound literal of array type
    special('const_'+cname.lower(),'const',n,m,val,[prop],'v',dst,**api)
VECS=[('vec2','C01'),('vec3','C01'),('vec4','C01'),('ivec2','C02'),('ivec3','C02'),('ivec4','C02')]
for ty,pr_ in VECS:
    n=int(ty[-1])
    for k in('ONE','ZERO')+(('BLACK',) if ty=='vec4' else ()):
        vconst('%s_%s_INIT'%(ty.upper(),k),ty,n,0,('i' if pr_=='C02' else '')+k.lower(),pr_,ty+'s')
        vconst('%s_%s'%(ty.upper(),k),ty,n,0,('i' if pr_=='C02' else '')+k.lower(),pr_,ty+'s','lit')
for c in(2,3,4):
    for r in(2,3,4):
        ty='mat%d'%c if c==r else 'mat%dx%d'%(c,r)
        for k in('ZERO','IDENTITY') if c==r else('ZERO',):
            vconst('%s_%s_INIT'%(ty.upper(),k),ty,c,r,'m'+k.lower(),'C06',ty+'s')
            if c==r: vconst('%s_%s'%(ty.upper(),k),ty,c,r,'m'+k.lower(),'C06',ty+'s','lit')
            else: special('const_%s_%s'%(ty,k.lower()),'const',c,r,'m'+k.lower(),['C06'],'v',[("dest",'P',PT[ty][0],PT[ty][1],'V','o',False)],
                 i='static void %%s(Call*c){ %s x=GLM_%s_%s; memcpy(c->p[0],&x,sizeof x); }'%(ty,ty.upper(),k), s='static void %%s(Call*c){ %ss x=GLMS_%s_%s; memcpy(c->p[0],&x,sizeof x); }'%(ty,ty.upper(),k))
vconst('QUAT_IDENTITY_INIT','versor',4,0,'qid','C10','versors'); vconst('QUAT_IDENTITY','versor',4,0,'qid','C10','versors','lit')
for k in('XUP','YUP','ZUP'): vconst(k,'vec3',3,0,k.lower(),'C14','vec3s','lit')
vconst('FORWARD','vec3',3,0,'forward','C14',None,'lit')
for k in('BEZIER','HERMITE'):
    for fo in('_INIT',''): vconst(k+'_MAT'+fo,'mat4',4,4,k.lower()+'mat','C21',None,'init' if fo else 'lit')
for k in('LBN','LTN','RTN','RBN','LBF','LTF','RTF','RBF'): vconst('CSCOORD_'+k,'vec4',4,0,'corner_'+k.lower(),'C18','vec4s')
def iconst(x,v,prop,pre='GLM_'): special('const_'+x.lower(),'const',v,0,'int',[prop],'i',[],i='static void %%s(Call*c){ c->ri=(int)(%s%s); }'%(pre,x))
for i,k in enumerate(('LBN','LTN','RTN','RBN','LBF','LTF','RTF','RBF')): iconst(k,i,'C18')
for i,k in enumerate(('LEFT','RIGHT','BOTTOM','TOP','NEAR','FAR')): iconst(k,i,'C18')
for k in('XXX','YYY','ZZZ','ZYX','XXXX','YYYY','ZZZZ','WWWW','WZYX'):      # the last letter is the first component's source
    d=['XYZW'.index(q) for q in k]; v=0
    for i,q in enumerate(d): v|=q<<(2*i)
    iconst(k,v,'C03')
for k in('XYZ','XZY','YXZ','YZX','ZXY','ZYX'):
    d=['XYZ'.index(q) for q in k]; iconst('EULER_'+k,d[0]|d[1]<<2|d[2]<<4,'C13')
for n,nm in((2,('y','x')),(3,('z','y','x')),(4,('z','y','x','w'))):
    special('shuffle%d'%n,'const',n,0,'shuffle',['C03'],'i',[(q,'I',0,0,'IDX%d'%n,'i',False) for q in nm],i='static void %%s(Call*c){ c->ri=GLM_SHUFFLE%d(%s); }'%(n,','.join('c->i[%d]'%i for i in range(n))))
for k in('MIN','MAX'): special('macro_'+k.lower(),'const',0,0,k.lower(),['C04'],'f',[('x','F',0,0,'S','i',False),('y','F',0,0,'S','i',False)],i='static void %%s(Call*c){ c->rf=GLM_%s(c->f[0],c->f[1]); }'%k)
for k in('E','LOG2E','LOG10E','LN2','LN10','PI','PI_2','PI_4','1_PI','2_PI','TAU','TAU_2','TAU_4','1_TAU','2_TAU','SQRT2','SQRT1_2'):
    special('const_%s'%k.lower(),'const',0,0,k,['C04'],'f',[],i='static void %%s(Call*c){ c->rf=(float)GLM_%s; }'%k)
    special('const_%sf'%k.lower(),'const',0,0,k,['C04'],'f',[],i='static void %%s(Call*c){ c->rf=GLM_%sf; }'%k)
special('const_2_sqrtpif','const',0,0,'2_SQRTPI',['C04'],'f',[],i='static void %s(Call*c){ c->rf=GLM_2_SQRTPIf; }')
special('const_2_sqrtpi','const',0,0,'2_SQRTPI',['C04'],'f',[],i='static void %s(Call*c){ c->rf=(float)GLM_2_SQRTPI; }')
special('const_sqrttau','const',0,0,'SQRTTAU',['C04'],'f',[],i='static void %s(Call*c){ c->rf=(float)GLM_SQRTTAU; }')
special('const_pi_old','const',0,0,'PI',['C04'],'f',[],i='static void %s(Call*c){ c->rf=(float)CGLM_PI; }')
special('const_pi_2_old','const',0,0,'PI_2',['C04'],'f',[],i='static void %s(Call*c){ c->rf=(float)CGLM_PI_2; }')
special('const_pi_4_old','const',0,0,'PI_4',['C04'],'f',[],i='static void %s(Call*c){ c->rf=(float)CGLM_PI_4; }')
FIELDS={'vec2s':('vec2',['x y','r i','u v','s t']),'vec3s':('vec3',['x y z','r g b']),'vec4s':('vec4',['x y z w','r g b a']),'versors':('versor',['x y z w','imag.x imag.y imag.z real']),
        'ivec2s':('ivec2',['x y','r i','u v','s t']),'ivec3s':('ivec3',['x y z','r g b']),'ivec4s':('ivec4',['x y z w','r g b a'])}
for c in(2,3,4):
    for r in(2,3,4):
        ty='mat%d'%c if c==r else 'mat%dx%d'%(c,r)
        FIELDS[ty+'s']=(ty,[' '.join('m%d%d'%(i,j) for i in range(c) for j in range(r)),' '.join('col[%d].raw[%d]'%(i,j) for i in range(c) for j in range(r))])
for st,(ty,groups) in FIELDS.items():
    isint=ty.startswith('ivec'); w,a=PT[ty]; fs=[q for g_ in groups for q in g_.split()]; et='int' if isint else 'float'
    pr_=['C02'] if isint else ['C06'] if 'mat' in ty else ['C10'] if ty=='versor' else ['C01']
    special('read_'+st,'const',w,len(groups),'fields',['C23','C28'],'v',[('v','P',w,a,'V','i',isint),('dest','P',w*len(groups),a,'V','o',isint)],
        s='#if CGLM_USE_ANONYMOUS_STRUCT\nstatic void %%s(Call*c){ %s x; memcpy(&x,c->p[0],sizeof x); %s *d=c->p[1]; %s }\n#else\n#define %%s 0\n#endif'%(st,et,' '.join('d[%d]=x.%s;'%(i,q) for i,q in enumerate(fs))))
    special('write_'+st,'const',w,len(groups),'setfields',['C23','C28'],'v',[('v','P',w*len(groups),a,'V','i',isint),('dest','P',w*len(groups),a,'V','o',isint)],
        s='#if CGLM_USE_ANONYMOUS_STRUCT\nstatic void %%s(Call*c){ %s *v=c->p[0], *d=c->p[1]; %s }\n#else\n#define %%s 0\n#endif'%(et,' '.join('{ %s x; %s memcpy(d+%d,&x,sizeof x); }'%(st,' '.join('x.%s=v[%d];'%(q,g_*w+i) for i,q in enumerate(gr.split())),g_*w) for g_,gr in enumerate(groups))))
# C28: the layout of every type, as this configuration compiles it.  Words: size, alignment, CGLM_ALL_UNALIGNED?, AVX?, then
# the byte offset of every component in order, once per way of naming it (missing ways repeat the first)
LTYPES=[(ty,ty.startswith('i'),int(ty[-1]),1) for ty in('vec2','vec3','vec4','ivec2','ivec3','ivec4')]+[('versor',False,4,1)]+[(t,False,DIM[t][1],DIM[t][0]) for t in DIM]
for ty,isint,r,c in LTYPES:
    vs=5 if(r,c)==(2,1) else 3; et='int' if isint else 'float'
    for st in('',ty+'s'):
        raw=[('[%d]'%j if c==1 else '[%d][%d]'%(i,j)) for i in range(c) for j in range(r)]; views=[[('.raw' if st else '')+q for q in raw]]
        if st: views+=[['.'+q for q in g_.split()] for g_ in FIELDS[st][1] if 'col[' not in g_]
        cols=[['.col[%d].raw[%d]'%(i,j) for i in range(c) for j in range(r)]] if st and c>1 else []
        def fill(vws): return ' '.join('O(%s)'%q for v_ in vws+[vws[0]]*(vs-len(vws)) for q in v_)
        T_=st or ty
        body='static void %%s(Call*c){ int*d=c->p[0]; %s x; d[0]=(int)sizeof x; d[1]=(int)ALIGNOF(%s); d[2]=VUNAL; d[3]=VAVX; d+=4;\n#define O(q) *d++=(int)((char*)&x q-(char*)&x);\n'%(T_,T_)
        if st: body+='#if CGLM_USE_ANONYMOUS_STRUCT\n%s\n#else\n%s\n#endif\n'%(fill(views+cols),fill(views[:1]+cols))
        else: body+=fill(views)+'\n'
        body+='#undef O\n}'
        special('layout_'+T_,'const',r,c,'ilayout' if isint else 'layout',['C28'],'v',[('dest','P',4+vs*r*c,1,'V','o',True)],i=body)
# ---- the SIMD vocabulary of each instruction set (simd/x86.h, arm.h, wasm.h) ----------------------
L4='glmm_128 a=glmm_load((float*)c->p[0]);'; B4='glmm_128 b=glmm_load((float*)c->p[1]);'; C4='glmm_128 d=glmm_load((float*)c->p[2]);'
GALL='defined(CGLM_SIMD)&&!(defined(CGLM_SIMD_x86)&&!defined(__SSE2__))'; GNARM='!defined(CGLM_SIMD_ARM)'; G256='defined(__AVX__)'
def simd(nm,f,n,ret,ins,body,out=0,guard=None,w=4,al=4):
    ps=[('a b c'.split()[i],'P',w,al,'V','i',False) for i in range(ins)]
    if out: ps.append(('dest','P',out,out if out in(4,8) else 1,'V','o',False))
    special('simd_'+nm,'simd',n,0,f,['C24'],ret,ps,i=(' && '.join([GALL]+([guard] if guard else [])),'static void %%s(Call*c){ %s }'%body))
D=lambda k,e:'glmm_store((float*)c->p[%d],%s);'%(k,e)
for f in('abs','vhadd'): simd(f,f,4,'v',1,L4+D(1,'glmm_%s(a)'%f),4)
for f in('min','max','vdot','div'): simd(f,f,4,'v',2,L4+B4+D(2,'glmm_%s(a,b)'%f),4)
for f in('hadd','hmin','hmax','norm','norm2','norm_one','norm_inf'): simd(f,f,4,'f',1,L4+'c->rf=glmm_%s(a);'%f)
simd('dot','dot',4,'f',2,L4+B4+'c->rf=glmm_dot(a,b);')
for f in('vhadds','vhmin','vhmax'): simd(f,{'vhadds':'hadd','vhmin':'hmin','vhmax':'hmax'}[f],4,'f',1,L4+'float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_%s(a)); c->rf=t[0];'%f,guard=GNARM)
simd('vdots','dot',4,'f',2,L4+B4+'float t[4] __attribute__((aligned(16))); glmm_store(t,glmm_vdots(a,b)); c->rf=t[0];',guard=GNARM)
for f in('fmadd','fnmadd','fmsub','fnmsub'):
    simd(f,f,4,'v',3,L4+B4+C4+D(3,'glmm_%s(a,b,d)'%f),4)
    simd('256_'+f,f,8,'v',3,'__m256 a=glmm_load256((float*)c->p[0]),b=glmm_load256((float*)c->p[1]),d=glmm_load256((float*)c->p[2]); glmm_store256((float*)c->p[3],glmm256_%s(a,b,d));'%f,8,G256,8,8)
simd('load3','load3',3,'v',1,D(1,'glmm_load3(c->p[0])'),4,GNARM+' && (defined(__SSE2__)||defined(CGLM_SIMD_WASM))',3,1)
simd('store3','store3',3,'v',1,L4+'glmm_store3(c->p[1],a);',3,GNARM+' && (defined(__SSE2__)||defined(CGLM_SIMD_WASM))',4)
for i,k in enumerate('xyzw'): simd('splat_'+k,'splat',i,'v',1,L4+D(1,'glmm_splat_%s(a)'%k),4)
for q in('0123','3210','2031','1133'):       # glmm_shuff1(v, z, y, x, w): lane 0 takes w, lane 1 x, lane 2 y, lane 3 z
    simd('shuff_'+q,'shuff',sum(int(x)<<(2*i) for i,x in enumerate(q[::-1])),'v',1,L4+D(1,'glmm_shuff1(a,%s)'%','.join(q)),4,GNARM)
simd('set1','splat',0,'v',1,'float x=*(float*)c->p[0];'+D(1,'glmm_set1(x)'),4); simd('set1_ptr','splat',1,'v',1,'float*x=(float*)c->p[0]+1;'+D(1,'glmm_set1_ptr(x)'),4); simd('set1_rval','splat',2,'v',1,'float*x=c->p[0];'+D(1,'glmm_set1_rval(x[2])'),4)
for q,(x,y) in dict(ll=(0,0),hl=(2,0),lh=(0,2),hh=(2,2)).items(): simd('combine_'+q,'combine',4*x+y,'v',2,L4+B4+D(2,'glmm_combine_%s(a,b)'%q),4,'defined(CGLM_SIMD_ARM)')
simd('swplane','shuff',2|3<<2|0<<4|1<<6,'v',1,L4+D(1,'glmm_swplane(a)'),4,'defined(CGLM_SIMD_ARM)')
for name,cl,ret,ps,api in SPECIAL:
    fam,n,m,f,props,fl=cl; pm=0
    for x in props: pm|=1<<int(x[1:])
    ops_=["{'%s',%d,%d,T_%s,'%s',%d,\"%s\"}"%(k,w,a,tg,ro,1 if ii else 0,pn) for pn,k,w,a,tg,ro,ii in ps]
    oi.write('OP("%s","%s",%d,%d,"%s",\'%s\',"%s",0x%x,%d,{%s})\n'%(name,fam,n,m,f,ret,fl,pm,len(ps),','.join(ops_) or '{0}'))
    for k,v in api.items():
        gd,v=v if isinstance(v,tuple) else(None,v)
        wr[k][name]=(props,fam,v.replace('%s','%s_%s'%(k,name)),gd); cnt[k]+=1
for k in 'ics':
    bp=collections.OrderedDict()
    for name,(props,fam,v,*gd) in wr[k].items():
        g_=[q for q in gd if q]
        if k in 'is' and re.search(r'_(no|zo|[lr]h)$',name): g_.append('!defined(PLAIN)')      # the other clip spaces are there on request only
        v=v.replace('(void*)','VOIDP ')
        bp.setdefault((tuple(props),' && '.join(g_) or None),[]).append((name,v))
    f=files[k]
    for (pr,gd),l in bp.items():
        cond=' || '.join('defined(W_%s)'%p for p in pr)+' || defined(W_ALL)'
        if gd: cond='(%s) && %s'%(cond,gd)
        f.write('#if %s\n'%cond)
        for name,v in l:
            if name.startswith('euler') and (name.endswith('_rh') or name.endswith('_lh')): pass
            f.write(v+'\n')
        f.write('#endif\n')
    f.write('static const WEntry table_%s[]={\n'%k)
    for (pr,gd),l in bp.items():
        cond=' || '.join('defined(W_%s)'%p for p in pr)+' || defined(W_ALL)'
        if gd: cond='(%s) && %s'%(cond,gd)
        f.write('#if %s\n'%cond)
        for name,v in l: f.write('{"%s",%s_%s},\n'%(name,k,name))
        f.write('#endif\n')
    f.write('{0,0}};\n')
# the names the struct functions have under the namespace options: those with a sub namespace follow them
NSF=sorted({m for name,(pr_,fam_,v_,*gd) in wr['s'].items() for m in re.findall(r'\bglms_((?:mat[234](?:x[234])?|i?vec[234]|quat|aabb2d|aabb|ray)_\w+)\(',v_)})
NSF=[q for q in NSF if not q.endswith('_step_uni')]       # deprecated macros
open(OUT+'/nsmap.inc','w').write(''.join('#define glms_%s VN(%s)\n'%(q,','.join(q.split('_',1))) for q in NSF))
open(OUT+'/tags.inc','w').write(''.join('T_%s,\n'%t for t in sorted(tags)))
print(cnt,'no struct wrapper:',nos)
print(sorted(tags))
print('glms not used:',[n for n in S if n not in wr['s']])
print('glmc not used:',[n for n in C if n not in wr['c']])

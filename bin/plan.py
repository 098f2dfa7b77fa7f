"""Which builds are recorded for which property, and how much."""
CONFIGS = {
 'sse2':   dict(flags=['-O2']),                                                       # what /opt/vp/build.sh builds
 'scalar': dict(flags=['-O1', '-U__SSE__', '-U__SSE2__']),                            # plain C paths
 'sse4':   dict(flags=['-O1', '-msse4.2'], cpu=['sse4_2']),
 'sse4dot': dict(flags=['-O1', '-msse4.2', '-DCGLM_SSE4_DOT'], cpu=['sse4_2']),
 'sse3dot': dict(flags=['-O1', '-msse3', '-DCGLM_SSE3_DOT'], cpu=['pni']),
 'avx':    dict(flags=['-O1', '-mavx', '-mno-fma'], cpu=['avx']),
 'avx2':   dict(flags=['-O2', '-mavx2', '-mfma'], cpu=['avx2', 'fma']),
 'unal':   dict(flags=['-O1', '-DCGLM_ALL_UNALIGNED'], offset=1),
 'unal2':  dict(flags=['-O1', '-DCGLM_ALL_UNALIGNED'], offset=2),
 'unal3':  dict(flags=['-O1', '-DCGLM_ALL_UNALIGNED'], offset=3),
 'unalavx': dict(flags=['-O1', '-mavx2', '-mfma', '-DCGLM_ALL_UNALIGNED'], offset=1, cpu=['avx2', 'fma']),
 'clang':  dict(flags=['-O2'], cc='clang'),
 'o0':     dict(flags=['-O0']),
 'opts':   dict(flags=['-O1', '-DCGLM_NO_INT_DOMAIN', '-DCGLM_USE_ANONYMOUS_STRUCT=0']),
 # the headers used from C++ (the compiled library stays C)
 'cxx':    dict(flags=['-O2'], cc='g++', src='gcc'),
 # a default inclusion: the other clip spaces are not there
 'plain':     dict(flags=['-O1', '-DPLAIN']),
 'plainzo':   dict(flags=['-O1', '-DPLAIN', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE']),
 'plainlh':   dict(flags=['-O1', '-DPLAIN', '-DCGLM_FORCE_LEFT_HANDED']),
 'plainlhzo': dict(flags=['-O1', '-DPLAIN', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE']),
 # comparison tolerance
 'epsdef': dict(flags=['-O1', '-DCGLM_USE_DEFAULT_EPSILON']),
 'epsown': dict(flags=['-O1', '-DGLM_FLT_EPSILON=1e-3f']),
 # the struct API's namespace options
 'nsomit': dict(flags=['-O1', '-DCGLM_OMIT_NS_FROM_STRUCT_API', '-DVN(T,N)=T##_##N']),
 'nsmy':   dict(flags=['-O1', '-DCGLM_STRUCT_API_NS=my', '-DVN(T,N)=my_##T##_##N']),
 'nssuf':  dict(flags=['-O1', '-DCGLM_STRUCT_API_NAME_SUFFIX=s', '-DVN(T,N)=glms_##T##s_##N']),
 # other instruction sets, through definitions of their intrinsics for this host (harness/shim)
 'neon':   dict(flags=['-O1', '-U__SSE__', '-U__SSE2__', '-D__ARM_NEON=1', '-D__ARM_NEON_FP=1', '-D_M_ARM64=1', '-I@shim']),
 'neon32': dict(flags=['-O1', '-U__SSE__', '-U__SSE2__', '-D__ARM_NEON=1', '-D__ARM_NEON_FP=1', '-I@shim']),
 'wasm':   dict(flags=['-O1', '-U__SSE__', '-U__SSE2__', '-D__wasm__=1', '-D__wasm_simd128__=1', '-I@shim']),
 'zo':     dict(flags=['-O1', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE']),
 'lh':     dict(flags=['-O1', '-DCGLM_FORCE_LEFT_HANDED']),
 'lhzo':   dict(flags=['-O1', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE']),
 'lhzoavx': dict(flags=['-O1', '-mavx2', '-mfma', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], cpu=['avx2', 'fma']),
}
BASE = [('sse2', 'ics'), ('scalar', 'i'), ('avx2', 'i')]
DEEP = BASE + [('sse4', 'i'), ('avx', 'i'), ('unal', 'i'), ('clang', 'i'), ('neon', 'i'), ('wasm', 'i')]

def std(quick=(4000, 300), thorough=(12000, 600)):
    def runs(tier):
        n, l = quick if tier == 'quick' else thorough
        return [dict(traces=n, len=l, variants=BASE if tier == 'quick' else DEEP)]
    return runs
def clip(quick=(2400, 300), thorough=(6000, 600)):
    def runs(tier):
        n, l = quick if tier == 'quick' else thorough
        return [dict(traces=n, len=l, variants=(BASE if tier == 'quick' else DEEP) + [('plain', 'is')])] + \
               [dict(traces=n // 3, len=l, cc=k, variants=[(c, 'ics'), ('plain' + c, 'is')]) for k, c in ((1, 'zo'), (2, 'lh'), (3, 'lhzo'))]
    return runs

PLAN = {
 **{'C%02d' % k: dict(runs=std()) for k in range(1, 13)},
 **{'C%02d' % k: dict(runs=clip()) for k in range(13, 18)},
 **{'C%02d' % k: dict(runs=std()) for k in range(18, 23)},
 'C23': dict(tag='ALL', runs=lambda tier: [dict(prop='all', judge='Agree', traces=q, len=400, variants=v, cc=k) for k, v, q in
      ((0, [('sse2', 'ics'), ('cxx', 'ics')], 1200 if tier == 'quick' else 6000), (0, [('scalar', 'ics')], 400 if tier == 'quick' else 2000), (1, [('zo', 'ics')], 120), (2, [('lh', 'ics')], 120), (3, [('lhzo', 'ics')], 120), (0, [('sse2', 'i'), ('nsomit', 's'), ('nsmy', 's'), ('nssuf', 's')], 240 if tier == 'quick' else 1200))]),
 'C26': dict(tag='ALL', runs=lambda tier: [dict(prop='all', judge='Pure', traces=600 if tier == 'quick' else 3000, len=400, variants=[('sse2', 'ics'), ('scalar', 'i'), ('avx2', 'i')]),
      dict(prop='all', judge='Agree', traces=400 if tier == 'quick' else 2000, len=400, variants=[('sse2', 'i'), ('unal', 'i'), ('unal2', 'i'), ('unal3', 'i')])]),
 'C24': dict(tag='ALL', runs=lambda tier: [dict(prop='all', judge='Agree', traces=700 if tier == 'quick' else 4000, len=400, variants=v) for v in
      ([('sse2', 'i'), ('scalar', 'i'), ('sse4', 'i'), ('sse4dot', 'i'), ('sse3dot', 'i'), ('o0', 'i'), ('opts', 'is')], [('scalar', 'i'), ('avx', 'i'), ('avx2', 'i'), ('unal', 'i'), ('unalavx', 'i'), ('clang', 'i')],
       [('scalar', 'i'), ('neon', 'i'), ('wasm', 'i')])] +
      [dict(prop='all', fam='simd', traces=300 if tier == 'quick' else 2000, len=300, variants=[('sse2', 'i'), ('sse4', 'i'), ('sse4dot', 'i'), ('sse3dot', 'i'), ('avx', 'i'), ('avx2', 'i'), ('unal', 'i'), ('unalavx', 'i'), ('neon', 'i'), ('wasm', 'i')])] +
      [dict(prop='all', fam='mat,matinv,aff,quat,qrot,qint,vgeom', judge='Agree', traces=300 if tier == 'quick' else 2000, len=300, variants=[('scalar', 'i'), ('neon32', 'i')])] +
      [dict(prop='all', fam='clip,view,proj,euler,quat,qrot,frus', traces=160, len=300, cc=k, variants=[(c, 'ics')]) for k, c in ((1, 'zo'), (2, 'lh'), (3, 'lhzo'), (3, 'lhzoavx'))] +
      [dict(prop='all', fam='vclass,util', traces=100 if tier == 'quick' else 600, len=300, cc=k, variants=[(c, 'i')]) for k, c in ((4, 'epsdef'), (8, 'epsown'))]),
 # every configuration has its own types
 'C28': dict(runs=lambda tier: [dict(traces=20 if tier == 'quick' else 200, len=300, cc={'zo': 1, 'lh': 2, 'lhzo': 3, 'lhzoavx': 3}.get(c, 0), variants=[(c, 'is' if c in ('sse2', 'scalar', 'avx2', 'unal', 'unalavx', 'clang', 'opts', 'cxx') else 'i')]) for c in CONFIGS if not c.startswith(('ns', 'eps', 'plain'))]),
 'C27': dict(custom='prints', technique='trace validation of recorded print output against the TLA+ module Print (TLC)'),
 'C25': dict(tag='ALL', runs=lambda tier: [dict(prop='all', alias=1, traces=1600 if tier == 'quick' else 8000, len=300, variants=BASE),
      dict(prop='all', alias=1, traces=400 if tier == 'quick' else 3000, len=300, variants=[(c, 'i') for c in ('sse4', 'avx', 'unal', 'clang', 'neon', 'wasm', 'o0')])]),
}

# the models of the specification checked exhaustively: (module, constants, invariants[, constraint])
MODELS = {
 'C01': lambda t: [('MC_Vec', 'N = 2', 'Ring Fused Metric Crosses'), ('MC_Vec', 'N = 3', 'Ring Crosses' if t == 'quick' else 'Ring Fused Metric Crosses')] + ([] if t == 'quick' else [('MC_Vec', 'N = 4', 'Ring Fused Metric Crosses')]),
 'C02': lambda t: [('MC_IVec', 'N = %d' % n, 'Ring Division Order3 Metrics') for n in ((2,) if t == 'quick' else (2, 3, 4))],
 'C03': lambda t: [('MC_Vec', 'N = %d' % n, 'Class') for n in ((2,) if t == 'quick' else (2, 3, 4))],
 'C04': lambda t: [('MC_Vec', 'N = %d' % n, 'Interp') for n in ((2,) if t == 'quick' else (2, 3, 4))],
 'C05': lambda t: [('MC_Vec', 'N = %d' % n, 'Geo') for n in ((2,) if t == 'quick' else (2, 3, 4))],
 'C06': lambda t: [('MC_Mat', 'N = 2,Depth = %d' % (4 if t == 'quick' else 6), 'LRing'), ('MC_Mat', 'N = 3,Depth = %d' % (2 if t == 'quick' else 3), 'LRing'), ('MC_Mat', 'N = 4,Depth = 2', 'LRing'), ('MC_Rect', '', 'Laws')],
 'C07': lambda t: [('MC_Mat', 'N = 2,Depth = %d' % (4 if t == 'quick' else 5), 'Inverses'), ('MC_Mat', 'N = 3,Depth = %d' % (2 if t == 'quick' else 3), 'Inverses'), ('MC_Mat', 'N = 4,Depth = 2', 'Inverses')],
 'C08': lambda t: [('MC_Affine', 'Depth = %d' % (2 if t == 'quick' else 3), 'Moves Affine', 'Bound')],
 'C09': lambda t: [('MC_Affine', 'Depth = %d' % (2 if t == 'quick' else 3), 'Decomposes', 'Bound')],
 'C10': lambda t: [('MC_Quat', '', 'Algebra')],
 'C11': lambda t: [('MC_Quat', '', 'Rotation')],
 'C12': lambda t: [('MC_Quat', '', 'Arcs')],
 'C13': lambda t: [('MC_Euler', '', 'Denotes Codes')],
 'C14': lambda t: [('MC_View', '', 'Views')],
 'C15': lambda t: [('MC_Clip', '', 'Frusta Infront Orthos Boxed Perspectives Defaults Configured')],
 'C16': lambda t: [('MC_Clip', '', 'Decomposed')],
 'C17': lambda t: [('MC_Proj', 'B = %d' % (1 if t == 'quick' else 3), 'Inverse_of Fills Picks')],
 'C18': lambda t: [('MC_Frustum', 'Full = %s' % ('FALSE' if t == 'quick' else 'TRUE'), 'Planes Unit Corners Middle Culls Normal')],
 'C19': lambda t: [('MC_Box', 'N = %d' % n, 'Lattice2 Empty Measures Points Moved') for n in (2, 3)],
 'C20': lambda t: [('MC_Ray', '', 'Tri Sph Spheres')],
 'C21': lambda t: [('MC_Curve', '', 'Ends Agreeing Solves Easings Forward')],
 'C22': lambda t: [('MC_Noise', 'N = 2', 'Lat Bounded Periodic Continuous Varies')] + ([] if t == 'quick' else [('MC_Noise', 'N = %d' % n, 'Lat Bounded Periodic Continuous Varies') for n in (3, 4)]),
 'C23': lambda t: [('MC_Judge', 'Full = %s' % ('FALSE' if t == 'quick' else 'TRUE'), 'Exact Agreement')],
 'C24': lambda t: [('MC_Judge', 'Full = %s' % ('FALSE' if t == 'quick' else 'TRUE'), 'Exact Agreement')],
 'C25': lambda t: [('MC_Judge', 'Full = %s' % ('FALSE' if t == 'quick' else 'TRUE'), 'Exact')],
 'C28': lambda t: [('MC_Layout', 'Depth = %d' % (2 if t == 'quick' else 3), 'Reported Aligned Strides Apart Packed Columns')],
 'C26': lambda t: [('MC_Judge', 'Full = %s' % ('FALSE' if t == 'quick' else 'TRUE'), 'Exact Agreement')],
}
for k in MODELS: PLAN[k]['models'] = MODELS[k]

def evidence_fields(prop, pl, tier, seed, cov, nbad, secs, head):
    c = dict(states=cov['states'], transitions=cov['transitions'], traces_validated_against_impl=cov['traces'], samples=cov.pop('samples'),
             calls_validated=cov['events'], distinct_outcomes=cov['alternatives'], results_compared=cov['numbers'], compared_exactly=cov['exact'], undetermined_by_rounding=cov['undetermined'])
    for k in ('operations', 'least_exercised', 'cases_of_contracts', 'cases_never_taken', 'loosely_determined', 'entirely_undetermined_operations', 'per_operation', 'configurations', 'models', 'known_findings', 'build_seconds'): c[k] = cov[k]
    return dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=c, repo_head=head,
                assumptions=['binary32 arithmetic with round-to-nearest in the builds under test', 'a result is accepted when it lies in the rounding interval the specification (module Num) computes for its formula',
                             'TLC and its Java operator overrides (spec/java) evaluate the specification correctly'],
                wall_s=round(secs, 2), violations=nbad)

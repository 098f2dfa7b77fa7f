"""C27: record what the print functions write in several builds; TLC checks the records against spec/Print.tla."""
import os, json, re, shutil, time, hashlib
ARCH_SSE = ['x86', 'SSE*']
#        name      compiler flags                                             10^-precision  threshold  arch words          printing compiled out
BUILDS = [('sse2',   ['-O2'],                                                     '0.00001',   '1e5',     ARCH_SSE,           ()),
          ('scalar', ['-O1', '-U__SSE__', '-U__SSE2__', '-DGLM_TESTS_NO_COLORFUL_OUTPUT'], '0.00001', '1e5', ['uncommon'],     ()),
          ('avx',    ['-O1', '-mavx'],                                            '0.00001',   '1e5',     ARCH_SSE + ['AVX'], ()),
          ('short',  ['-O0', '-DCGLM_PRINT_PRECISION=2', '-DCGLM_PRINT_MAX_TO_SHORT=1e3f'], '0.01', '1000', ARCH_SSE,            ()),
          ('ndebug', ['-O2', '-DNDEBUG'],                                         '0.00001',   '1e5',     ARCH_SSE,           ('i', 's')),
          ('forced', ['-O2', '-DNDEBUG', '-DCGLM_DEFINE_PRINTS'],                 '0.00001',   '1e5',     ARCH_SSE,           ()),
          ('marked', ['-O1', '-DCGLM_PRINT_COLOR="<b>"', '-DCGLM_PRINT_COLOR_RESET="</b>"', '-DCGLM_PRINT_PRECISION=8'], '0.00000001', '1e5', ARCH_SSE, ()),
          ('cxx',    ['-O1'],                                                     '0.00001',   '1e5',     ARCH_SSE,           ())]
def colour(flags):
    t = ' '.join(flags)
    return ('', '') if 'NO_COLORFUL' in t else ('<b>', '</b>') if '<b>' in t else ('\033[36m', '\033[0m')
def comp(name): return ['g++', '-x', 'c++'] if name == 'cxx' else ['gcc']

def build(m, name, flags, api):
    src = [m.HARN + '/print.c', m.HARN + '/gen.h', os.path.abspath(__file__)] + m.repo_sources()
    exe = os.path.join(m.BUILD, 'print', '%s-%s-%s' % (name, api, m.filehash(src, ' '.join(flags))))
    inc = ['-w', '-I' + m.HARN, '-I' + m.REPO + '/include']
    def make(t):
        if api == 'c':
            m.cc(['gcc'] + flags + inc + ['-DCGLM_EXPORTS', '-c', m.REPO + '/src/io.c', '-o', t + '.o'], 'src/io.c', True)
            m.cc(comp(name) + flags + inc + ['-DAPI_c', m.HARN + '/print.c', '-x', 'none', t + '.o', '-o', t, '-lm'], 'print.c', True)
            os.unlink(t + '.o')
        else: m.cc(comp(name) + flags + inc + ['-DAPI_' + api, m.HARN + '/print.c', '-o', t, '-lm'], 'print.c', True)
    return m.atomic(exe, make)

def setup(m, pool):
    return [(b, a, pool.submit(build, m, b[0], b[1], a)) for b in BUILDS for a in 'ics']

def check(m, prop, tier, seed):
    t0 = time.time(); pool = m.cf.ThreadPoolExecutor(8); jc = m.java_classes()
    n = 5200 if tier == 'quick' else 40000
    work = os.path.join(m.BUILD, 'work', '%s-%d' % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    exes = [(b, a, f.result()) for b, a, f in setup(m, pool)]
    def one(k):
        b, api, exe = exes[k]; log = os.path.join(work, 'log%d' % k); cfg = os.path.join(work, 'cfg%d' % k)
        if b[1].count('-mavx') and not m.supported('avx'): return None
        args = [exe, str(seed * 100 + k), str(n)]
        with open(log, 'w') as f: r = m.subprocess.run(args, stdout=f, stderr=m.subprocess.PIPE, timeout=300)
        lines = open(log).read().split('\n')
        if lines and lines[-1] == '': lines.pop()
        crashed = None
        if r.returncode: crashed = 'a print function ended the program with status %d after %d calls' % (r.returncode, len(lines)); lines = [l for l in lines if l.endswith('}')]
        if not lines: return b, api, 0, [(0, crashed or 'nothing recorded')], args, 0, 0, []
        open(log, 'w').write('\n'.join(lines) + '\n')
        json.dump(dict(prec=b[2], short=b[3], arch=b[4], none=api in b[5], on=colour(b[1])[0], off=colour(b[1])[1]), open(cfg, 'w'))
        q = m.sh(['java', '-Djava.io.tmpdir=' + work, '-XX:-UsePerfData', '-XX:+UseSerialGC', '-Xmx3g', '-Xss16m', '-cp', ':'.join([jc, m.TLA, m.CM]), 'tlc2.TLC', '-noGenerateSpecTE', '-workers', '2', '-metadir', os.path.join(work, 'meta%d' % k),
                  '-config', m.SPEC + '/Print.cfg', m.SPEC + '/Print.tla'], cwd=m.SPEC, env=dict(os.environ, PRINTLOG=log, PRINTCFG=cfg))
        if 'Model checking completed. No error has been found' not in q.stdout: raise m.Broken('TLC failed on Print:\n' + q.stdout[-3000:])
        st = re.search(r'(\d+) states generated, (\d+) distinct', q.stdout)
        bad = sorted(set((int(x), lines[int(x) - 1]) for x in re.findall(r'<<"MISMATCH", (\d+)>>', q.stdout)))
        if crashed: bad.append((len(lines) + 1, crashed))
        return b, api, len(lines), bad, args, int(st.group(1)), int(st.group(2)), lines[:2]
    try:
        with m.cf.ThreadPoolExecutor(6) as ex: res = [r for r in ex.map(one, range(len(exes))) if r]
        bad = [(r, x) for r in res for x in r[3]]
        os.makedirs(os.path.join(m.EVID, 'replay'), exist_ok=True)
        rp = os.path.join(m.EVID, 'replay', prop + '.txt')
        if bad:
            with open(rp, 'w') as f:
                for r, (k, x) in bad[:60]: f.write('build %s (%s) API %s record %d: %s\nrecord again: %s\n' % (r[0][0], ' '.join(r[0][1]), r[1], k, x, ' '.join(r[4])))
        tot = sum(r[2] for r in res)
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(states=sum(r[6] for r in res), transitions=sum(r[5] for r in res), traces_validated_against_impl=len(res), samples=[x for r in res for x in r[7]][:6],
                  calls_validated=tot, configurations=['%s/%s' % (r[0][0], r[1]) for r in res]), repo_head=m.sh(['git', '-C', m.REPO, 'rev-parse', 'HEAD']).stdout.strip(),
                  assumptions=['the C library formats numbers correctly', 'TLC and its Java operator overrides (spec/java) evaluate the specification correctly'], wall_s=round(time.time() - t0, 2), violations=len(bad))
        with open(os.path.join(m.EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d printed objects, %d mismatches, %.1fs' % (prop, tot, len(bad), time.time() - t0))
        if bad:
            r, (k, x) = bad[0]; print('build %s API %s record %d: %s' % (r[0][0], r[1], k, x)); print('VIOLATION property=%s replay=%s' % (prop, rp)); return 1
        return 0
    finally: shutil.rmtree(work, ignore_errors=True)

#!/usr/bin/env python3
"""Decide one property: compile its harness units against /repo's current headers to LLVM IR, execute
them symbolically with osym (Z3 decides every symbolic branch, assertion and memory bound), replay
counterexamples and sampled paths natively against the real code, write evidence/<id>.json."""
import sys, os, re, json, subprocess, time, glob, shutil, hashlib, shlex
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'; OSYM = V + '/build/osym'
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
STD = ['-std=gnu++17', '-w', '-D_LARGEFILE_SOURCE', '-D_FILE_OFFSET_BITS=64', '-D_GNU_SOURCE', '-DOSMIUM_WITH_DEBUG']
IR = ['-U__SIZEOF_INT128__', '-O1', '-g', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-fno-pic', '-fno-pie',
      '-Xclang', '-fno-pch-timestamp', '-emit-llvm', '-c'] 
IR = [x for x in IR if x not in ('-Xclang', '-fno-pch-timestamp')]
ENV = dict(os.environ, LC_ALL='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
for k in ('CPLUS_INCLUDE_PATH', 'CPATH', 'CXXFLAGS', 'LDFLAGS'): ENV.pop(k, None)

def sh(cmd, **kw): return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def parse_units(pid):
    units = []
    for f in sorted(glob.glob(f'{V}/harness/{pid}_*.cpp')):
        u = dict(file=f, base=os.path.basename(f)[:-4], mocks=[], flags=[], reach=[], time=600, steps=None, variants=[], nativeflags=[], replay=True, validate=6, libs=[], qt=None, bounds=[], ntime=20, jobs=8, symflags=[])
        for line in open(f):
            m = re.match(r'//@\s*(\w+)(?:\s+(\w+))?:\s*(.*)$', line)
            if not m: continue
            k, a, v = m.groups(); v = v.strip()
            if k == 'mock': u['mocks'] += v.split()
            elif k == 'flags': u['flags'] += shlex.split(v)
            elif k == 'symflags': u['symflags'] += shlex.split(v)
            elif k == 'nativeflags': u['nativeflags'] += shlex.split(v)
            elif k == 'libs': u['libs'] += shlex.split(v)
            elif k == 'reach': u['reach'] += [x.strip() for x in v.split(',')]
            elif k == 'time': u['time'] = float(v)
            elif k == 'ntime': u['ntime'] = float(v)
            elif k == 'qt': u['qt'] = v
            elif k == 'steps': u['steps'] = v
            elif k == 'validate': u['validate'] = int(v)
            elif k == 'noreplay': u['replay'] = False
            elif k == 'bounds': u['bounds'].append(v)
            elif k == 'variant':
                t = shlex.split(v); u['variants'].append((a or 'both', t[0], t[1:]))
        vs = [(n, fl) for (t, n, fl) in u['variants'] if t in ('both', TIER)] or [(n, fl) for (t, n, fl) in u['variants'] if t == 'quick']
        if not u['variants']: vs = [('', [])]
        for n, fl in vs:
            w = dict(u); w['name'] = u['base'] + (('.' + n) if n else ''); w['flags'] = u['flags'] + fl; units.append(w)
    return units

def incs(u, sym):
    r = []
    if sym: r += ['-I' + V + '/mock/sys']
    for m in u['mocks']: r += ['-I' + V + '/mock/' + m]
    return r + ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/include']

def build_rt(work):
    out = []
    for s, cc in (('rt.cpp', 'clang++'), ('rtc.c', 'clang')):
        o = f'{work}/{s}.bc'
        c = [LL + cc] + ([x for x in STD if x != '-std=gnu++17'] + ['-D__NO_INLINE__'] if s.endswith('.c') else STD) + IR + ['-I' + V + '/rt', V + '/rt/' + s, '-o', o]
        out.append((o, subprocess.Popen(c, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    return out

def main():
    pid = sys.argv[1]; t0 = time.time(); os.makedirs(V + '/evidence', exist_ok=True)
    only = sys.argv[2] if len(sys.argv) > 2 else None
    work = f'{V}/build/work/{pid}'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if not os.path.exists(OSYM):
        r = sh(['make', '-s', '-j4', '-C', V + '/engine'])
        if r.returncode: print(r.stdout); return 3
    units = [u for u in parse_units(pid) if not only or only in u['name']]
    if not units: print('no harness for', pid); return 3
    rts = build_rt(work)
    for u in units:
        u['bc'] = f"{work}/{u['name']}.h.bc"; u['lbc'] = f"{work}/{u['name']}.bc"; u['nat'] = f"{work}/{u['name']}.native"
    # compile: at most 8 at a time; symbolic IR first, then native replay binaries
    jobs = []
    for u in units:
        jobs.append((u, 'bc', [LL + 'clang++'] + STD + IR + u['flags'] + u['symflags'] + incs(u, True) + [u['file'], '-o', u['bc']]))
    for u in units:
        if u['replay']: jobs.append((u, 'nat', ['g++'] + STD + ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVERIF_NATIVE'] + u['flags'] + u['nativeflags'] + incs(u, False) + [u['file'], V + '/rt/native.cpp', '-o', u['nat']] + u['libs']))
    running = []; errs = []
    def reap(block):
        for j in list(running):
            if block or j[2].poll() is not None:
                o, _ = j[2].communicate(); j[0]['out_' + j[1]] = o
                if j[2].returncode: errs.append((j[0]['name'], j[1], o[-3000:]))
                running.remove(j)
                if block: return
    for (u, k, c) in jobs:
        while len(running) >= 8: reap(False); time.sleep(0.02)
        running.append((u, k, subprocess.Popen(c, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    while running: reap(True)
    rtbc = []
    for o, p in rts:
        out, _ = p.communicate()
        if p.returncode: print(out); return 3
        rtbc.append(o)
    if errs:
        for e in errs: print('COMPILE ERROR', e[0], e[1]); print(e[2])
        print(f'ERROR property={pid}: harness does not compile against the current tree'); return 3
    known = load_known(pid)
    tot = dict(paths=0, killed=0, forks=0, symBranches=0, insts=0, queries=0, sat=0, unsat=0, unknown=0, solverUs=0, cacheHits=0, fpq=0)
    viols, knownhit, problems, samples, unitev, funcs, labels = [], {}, [], [], [], set(), {}
    validated = 0; fileunits = {}
    for u in units:
        r = sh([LL + 'llvm-link', u['bc']] + rtbc + ['-o', u['lbc']])
        if r.returncode: print(r.stdout); return 3
        od = f"{work}/{u['name']}.out"
        tl = u['time'] * (1 if TIER == 'quick' else 4)
        if TIER == 'quick':
            left = 780 - (time.time() - t0) # an answer is needed within 900 s
            if viols and left < 480: break
            tl = max(30, min(tl, left))
        cmd = [OSYM, '-o', od, '-j', '8', '-t', str(tl)] + (['-steps', u['steps']] if u['steps'] else []) + (['-qt', u['qt']] if u['qt'] else []) + [u['lbc']]
        r = sh(cmd)
        if r.returncode or not os.path.exists(od + '/summary.json'):
            problems.append(f"{u['name']}: engine failed: {r.stdout[-1500:]}"); continue
        s = json.load(open(od + '/summary.json'))
        for k in tot: tot[k] += s.get(k, 0)
        funcs.update(s['functions'])
        if s['errors'] or s['incomplete']: problems.append(f"{u['name']}: errors={s['errors']} incomplete={s['incomplete']} {s['errmsgs'][:int(os.environ.get('VERIF_ERRS','4'))]}")
        reached = {x['label'] for x in s['reach']}
        fr = fileunits.setdefault(u['base'], (u['reach'], set())); fr[1].update(reached)
        for a in s['asserts']:
            l = labels.setdefault(a['label'], dict(hits=0, solver=0)); l['hits'] += a['hits']; l['solver'] += a['solver']
        # violations: replay each against the native build
        for vf in sorted(glob.glob(od + '/viol_*.json')):
            v = json.load(open(vf)); v['unit'] = u['name']; v['file'] = vf
            kf = match_known(known, u, v)
            conf, how = replay(u, v, work)
            v['confirmed'] = conf; v['how'] = how
            if kf is not None and conf: knownhit.setdefault(kf['text'], v); continue
            if conf: viols.append(v)
            else: problems.append(f"{u['name']}: counterexample for '{v['label']}' at {v['where'][:200]} did not reproduce natively ({how})")
        # validate sampled paths against the native build
        sf = sorted(glob.glob(od + '/sample_*.json'))
        step = max(1, len(sf) // max(1, u['validate'])); nv = 0
        for f in sf[::step][:u['validate'] + 2]:
            v = json.load(open(f))
            if u['replay']:
                res, out, rc = run_native(u, v, work)
                done = [x for x in res if x[0] == 'DONE']
                if rc == 0 and done and (v['nobs'] == 0 or done[0][1] == v['observe']): validated += 1; nv += 1
                elif any('undef' in str(i[0]) for i in v['inputs']): pass
                else: problems.append(f"{u['name']}: sampled path disagrees with native run: {res} rc={rc} expected {v['observe']} {out[-300:]}")
            if len(samples) < 6 and nv <= 2: samples.append(dict(unit=u['name'], inputs={f'{i}:{n[0]}': n[2] for i, n in enumerate(v['inputs'][:24])}, observe=v['observe']))
        unitev.append(dict(unit=u['name'], bounds=u['bounds'], flags=u['flags'], paths=s['paths'], killed=s['killed'], forks=s['forks'], symbolic_branches=s['symBranches'], instructions=s['insts'], longest_path=s['maxSteps'], queries=s['queries'], solver_s=round(s['solverUs'] / 1e6, 3), max_query_s=round(s['maxQueryUs'] / 1e6, 3), wall_s=s['wall'], paths_replayed_natively=nv))
        if os.environ.get('VERIF_VERBOSE'): print(json.dumps(unitev[-1]), s['errmsgs'][:3])
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(od, ignore_errors=True) if not viols else None
    for b, (want, got) in fileunits.items():
        for x in want:
            if x not in got: problems.append(f"{b}: vacuity: point '{x}' was never reached")
    rc = 0
    for t, v in knownhit.items(): print(f"KNOWN-FINDING: property={pid} {t}")
    rdir = f'{V}/evidence/replay'
    seen = set()
    for i, v in enumerate(viols):
        key = (v['unit'], v['label'])
        if key in seen: continue
        seen.add(key); os.makedirs(rdir, exist_ok=True)
        rp = f'{rdir}/{pid}_{len(seen)}.json'
        v['reproduce'] = f"VERIF_REPO={REPO} python3 {V}/replay.py {rp}"; v['property'] = pid
        json.dump(v, open(rp, 'w'), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {v['unit']}: {v['label']} at {v['where'][:300]} ({v['how']})"); rc = 1
    if not rc and problems: rc = 2
    for p in problems: print('INCONCLUSIVE' if rc == 2 else 'note:', p)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(seen),
        coverage=dict(states=tot['paths'] + tot['killed'], transitions=tot['symBranches'], traces_validated_against_impl=validated, samples=samples,
            paths_completed=tot['paths'], paths_cut_by_assumption=tot['killed'], state_forks=tot['forks'], llvm_instructions_executed=tot['insts'],
            solver_queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], query_cache_hits=tot['cacheHits'], floating_point_queries=tot['fpq'], solver_s=round(tot['solverUs'] / 1e6, 3),
            functions_encoded=sorted(funcs), units=unitev, assertions={k: v for k, v in labels.items()}, exhaustive_within_bounds=not problems,
            explanation='states = symbolic execution paths (each stands for all inputs satisfying its path condition); transitions = branch decisions on symbolic data settled by Z3.'),
        assumptions=ASSUME)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if rc == 0: print(f"OK property={pid} paths={tot['paths']} queries={tot['queries']} solver={tot['solverUs']/1e6:.1f}s wall={time.time()-t0:.1f}s validated={validated}")
    if not os.environ.get('VERIF_KEEP') and not viols: shutil.rmtree(work, ignore_errors=True)
    return rc

ASSUME = ['clang 18 -O1 LLVM IR is a faithful translation of the headers (the library itself is header-only; it is compiled from /repo on every run)',
          'osym executes that IR correctly (sampled paths are replayed natively and compared on every run)', 'Z3 answers are correct',
          'library functions outside /repo (libstdc++ internals, libc, and the mocks named in DESIGN.md) behave as their models in /verif/rt and /verif/mock', 'bounds as stated per unit; nothing is claimed outside them']

def write_inputs(v, fn):
    with open(fn, 'w') as f:
        for i in v['inputs']: f.write(i[2] + '\n')

def run_native(u, v, work, timeout=None):
    inp = f'{work}/replay.in'; res = f'{work}/replay.res'
    write_inputs(v, inp)
    if os.path.exists(res): os.remove(res)
    d = f'{work}/scratch'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    env = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', TMPDIR=d)
    try:
        p = subprocess.run([u['nat'], inp, res], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout or u['ntime'], text=True, errors='replace'); out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e: out, rc = '', 'timeout'
    r = [l.rstrip('\n').split('\t') for l in open(res)] if os.path.exists(res) else []
    return r, out, rc

def replay(u, v, work):
    if not u['replay']: return True, 'engine-only unit'
    res, out, rc = run_native(u, v, work)
    lab = v['label']
    if any(x[0] == 'ASSUME' for x in res): return False, 'assumption not met natively'
    for x in res:
        if x[0] == 'ASSERT' and x[1] == lab: return True, 'native replay fails the same assertion'
    if lab.startswith('memory:') and (rc == 77 or (isinstance(rc, int) and rc < 0)): 
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', out); return True, 'native replay: ' + (m.group(1) if m else f'signal {rc}')
    if lab.startswith('uncaught exception') or lab.startswith('std::terminate'):
        if any(x[0] == 'TERMINATE' for x in res): return True, 'native replay terminates with an uncaught exception'
    if lab.startswith('resource:') and rc == 'timeout': return True, 'native replay does not terminate'
    if lab.startswith('resource:') and (rc == 77 or (isinstance(rc, int) and rc < 0)): return True, 'native replay crashes'
    if (lab.startswith('assertion in code') or lab.startswith('abort') or lab.startswith('arithmetic') or lab in ('trap', 'reached unreachable code', 'undefined behaviour trap')) and (rc == 77 or (isinstance(rc, int) and rc < 0)): return True, f'native replay aborts (rc {rc})'
    if any(x[0] == 'ASSERT' for x in res): return True, 'native replay fails assertion: ' + [x for x in res if x[0] == 'ASSERT'][0][1]
    if rc == 77: return True, 'native replay: sanitizer error'
    return False, f'rc={rc} results={res} {out[-300:]}'

def load_known(pid):
    r = []
    fn = V + '/known-findings.txt'
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) unit=(\S+) label=<(.*?)> (.*)$', l.strip())
            if m and m.group(1) == pid: r.append(dict(unit=m.group(2), label=m.group(3), text=m.group(4)))
    return r

def match_known(known, u, v):
    for k in known:
        if u['base'] == k['unit'] and v['label'] == k['label']: return k
    return None

if __name__ == '__main__': sys.exit(main())

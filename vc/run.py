#!/usr/bin/env python3-vt
"""check driver:  run.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]"""
import sys, os, re, json, time, hashlib, subprocess, argparse, multiprocessing as mp, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import ir, sym, solve, execu
CACHE = os.environ.get('VC_CACHE', os.path.join(ROOT, '.cache'))
PROJ = ['math', 'utilities', 'serialization', 'dataclasses', 'geometry', 'detector', 'interactions', 'distributions', 'injection', 'io']
INC = ['-I%s/projects/%s/public' % (REPO, p) for p in PROJ] + ['-I%s/vendor/rk' % REPO, '-I%s/vendor/crundec3' % REPO, '-I' + HERE, '-I' + os.path.join(HERE, 'stubs')]
PYINC = []
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASE = ['-std=c++17', '-DNDEBUG', '-fno-access-control', '-w'] + INC
IRFLAGS = ['-O1', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-math-errno', '-gline-tables-only', '-S', '-emit-llvm', '-fno-discard-value-names', '-ffp-contract=off']
NATFLAGS = ['-DVC_NATIVE', '-O1', '-g0', '-fsanitize=address', '-fPIC']

def tree_hash():
    h = hashlib.sha256()
    for base in ('projects', 'vendor/rk', 'vendor/crundec3'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            if '/test' in d or 'pybindings' in d: continue
            for f in sorted(fs):
                if f.endswith(('.h', '.cxx', '.tcc', '.hpp', '.icc', '.cc', '.hh', '.cpp')):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for d, ds, fs in os.walk(os.path.join(HERE, 'stubs')):
        for f in sorted(fs): h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(os.path.join(HERE, 'vc.h'), 'rb').read())
    h.update(' '.join(BASE + IRFLAGS + NATFLAGS).encode())
    return h.hexdigest()[:20]

def sh(cmd, timeout=600):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

def compile_one(job):
    src, out, flags = job
    if os.path.exists(out): return None
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + ['-o', tmp, src])
    if r.returncode: return '%s:\n%s' % (src, r.stderr[-3000:])
    os.replace(tmp, out); return None

class Spec:
    def __init__(self, path):
        self.path = path; self.text = open(path).read(); self.sources = []; self.replace = []; self.opts = {}; self.defs = []; self.assume = []; self.harness = []; self.contracts = {}
        self.irflags = []; self.loopinv = []; self.native = []
        for ln in self.text.split('\n'):
            m = re.match(r'\s*//\s*SOURCES:\s*(.*)', ln)
            if m: self.sources += m.group(1).split()
            m = re.match(r'\s*//\s*REPLACE:\s*(.*?)\s*=>\s*(\w+)', ln)
            if m: self.replace.append((m.group(1), m.group(2)))
            m = re.match(r'\s*//\s*OPTS\s+(\S+):\s*(.*)', ln)
            if m: self.opts[m.group(1)] = dict((k, int(v)) for k, v in (x.split('=') for x in m.group(2).split()))
            m = re.match(r'\s*//\s*LOOPINV(?:\s+(\S+?))?:\s*(.*?)\s*=>\s*(.*)', ln)
            if m: self.loopinv.append((m.group(2), m.group(3).split(), m.group(1) or '.*'))
            m = re.match(r'\s*//\s*NATIVE:\s*(.*)', ln)
            if m: self.native += m.group(1).split()
            m = re.match(r'\s*//\s*IRFLAGS:\s*(.*)', ln)
            if m: self.irflags += m.group(1).split()
            m = re.match(r'\s*//\s*ASSUMES:\s*(.*)', ln)
            if m: self.assume.append(m.group(1))
        pend = []
        for ln in self.text.split('\n'):
            m = re.match(r'\s*//@\s*(.*)', ln)
            if m: pend.append(m.group(1)); continue
            m = re.match(r'\s*VC_HARNESS\((\w+)\)', ln)
            if m: self.harness.append(m.group(1)); self.contracts[m.group(1)] = ' '.join(pend); pend = []
        inc = re.findall(r'#include "(\w+\.inc)"', self.text)

def spec_headers():
    d = os.path.join(ROOT, 'specs')
    return ''.join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith('.h'))

def specfiles(prop):
    d = os.path.join(ROOT, 'specs')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if re.match(r'%s([_-].*)?\.cpp$' % prop, f))

def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18' if shutil.which('llvm-cxxfilt-18') else 'c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def build_ir(specs, th, log):
    os.makedirs(CACHE, exist_ok=True)
    jobs = []; per = {}
    rt = os.path.join(CACHE, 'rt-%s.ll' % hashlib.sha256((open(os.path.join(HERE, 'rt.cpp')).read() + ' '.join(IRFLAGS)).encode()).hexdigest()[:16])
    jobs.append((os.path.join(HERE, 'rt.cpp'), rt, BASE + IRFLAGS))
    for sp in specs:
        lls = [rt]; xf = BASE + IRFLAGS + sp.irflags; tag = ''.join(sp.irflags)
        for s in sp.sources:
            p = os.path.join(REPO, s)
            o = os.path.join(CACHE, '%s-%s%s.ll' % (th, s.replace('/', '_'), tag))
            if (p, o, xf) not in jobs: jobs.append((p, o, xf))
            lls.append(o)
        hh = hashlib.sha256((sp.text + spec_headers()).encode()).hexdigest()[:16]
        o = os.path.join(CACHE, '%s-%s-%s.ll' % (th, os.path.basename(sp.path), hh))
        jobs.append((sp.path, o, xf)); lls.append(o)
        per[sp.path] = (lls, os.path.join(CACHE, '%s-%s-%s.linked.ll' % (th, os.path.basename(sp.path), hh)))
    with mp.Pool(8) as pool:
        errs = [e for e in pool.map(compile_one, jobs, chunksize=1) if e]
    if errs: return None, errs
    out = {}
    for sp in specs:
        lls, linked = per[sp.path]
        if not os.path.exists(linked):
            r = sh(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link', '-S', '-o', linked + '.tmp'] + lls)
            if r.returncode: return None, [r.stderr[-3000:]]
            os.replace(linked + '.tmp', linked)
        out[sp.path] = linked
    return out, None

def build_native(sp, th):
    """-> (exe, err)"""
    hh = hashlib.sha256((sp.text + open(os.path.join(HERE, 'native.cpp')).read() + spec_headers()).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, '%s-%s-%s.exe' % (th, os.path.basename(sp.path), hh))
    if os.path.exists(exe): return exe, None
    jobs = []; objs = []
    for s in sp.sources + sp.native:
        o = os.path.join(CACHE, '%s-%s.o' % (th, s.replace('/', '_'))); jobs.append((os.path.join(REPO, s), o, BASE + NATFLAGS + ['-c'])); objs.append(o)
    o = exe + '.h.o'; jobs.append((sp.path, o, BASE + NATFLAGS + ['-c'])); objs.append(o)
    o = exe + '.n.o'; jobs.append((os.path.join(HERE, 'native.cpp'), o, BASE + NATFLAGS + ['-c'])); objs.append(o)
    with mp.Pool(8) as pool:
        errs = [e for e in pool.map(compile_one, jobs, chunksize=1) if e]
    if errs: return None, '\n'.join(errs)
    r = sh([CXX, '-fsanitize=address', '-rdynamic', '-o', exe + '.tmp'] + objs + ['-ldl', '-lgsl', '-lgslcblas', '-lpthread', '-Wl,--unresolved-symbols=ignore-all'])
    if r.returncode: return None, r.stderr[-3000:]
    os.replace(exe + '.tmp', exe)
    return exe, None

def native_run(exe, h, seed, iters, secs, values=None, jitter=0):
    args = [exe, 'vch_' + h, str(seed), str(iters), str(secs)]
    f = None
    if values is not None:
        f = tempfile.NamedTemporaryFile('w', delete=False, suffix='.val')
        for k, v in values.items():
            try: f.write('%s %r\n' % (k.replace(' ', '_'), float(sym.Fraction(v))))
            except Exception: pass
        f.close(); args += [f.name, str(jitter)]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:handle_abort=1')
    try: r = subprocess.run(args, capture_output=True, text=True, timeout=secs + 30, env=env); rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e: rc, out, err = -99, (e.stdout or b'').decode('latin1') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    if f: os.unlink(f.name)
    return rc, out, err

END = 0
MOD = None; LIDIR = []; DM = {}
def run_harness(job):
    h, replace, opts, limit = job
    t0 = time.time(); ex = execu.Executor(MOD, replace, opts); ex.dm = DM
    ex.lidir = [(re.compile(rx), ps) for rx, ps, hn in LIDIR if re.fullmatch(hn, h)]
    res = {'harness': h, 'status': 'ok'}
    try:
        if END and END - t0 < 5: raise execu.OutOfReach('time limit of the check')
        ex.run('vch_' + h, min(t0 + limit, END or t0 + limit))
    except execu.OutOfReach as e: res['status'] = 'out-of-reach'; res['reason'] = str(e)
    except ir.IRError as e: res['status'] = 'out-of-reach'; res['reason'] = 'IR: ' + str(e)
    except RecursionError: res['status'] = 'out-of-reach'; res['reason'] = 'recursion'
    except Exception as e: res['status'] = 'out-of-reach'; res['reason'] = 'internal: ' + traceback.format_exc()[-1500:]
    res.update(obls=ex.obls, covers=ex.covers, paths=ex.paths, done=ex.done_paths, instr=ex.instr, called=sorted(ex.called), replaced=sorted(ex.replaced_used), violations=ex.violations[:8],
               solver={k: [solve.STATS.n[k], round(solve.STATS.t[k], 3)] for k in solve.STATS.n}, t=time.time() - t0, safety=ex.counts, loopinv=ex.loopinv, li_why=ex.li_why, bounded=ex.bounded)
    if ex.violations: res['status'] = 'failed'
    solve.STATS.n.clear(); solve.STATS.t.clear()
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--native', action='store_true', help='also run the native search on every harness (development)')
    ap.add_argument('--limit', type=float, default=0)
    a = ap.parse_args()
    t0 = time.time(); prop = a.prop; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    specs = [Spec(f) for f in specfiles(prop)]
    if not specs: print('no specification for', prop); return 2
    th = tree_hash()
    linked, errs = build_ir(specs, th, None)
    if errs:
        print('ERROR: the code or its specification does not compile'); print('\n'.join(errs)); return 2
    limit = a.limit or (240 if a.tier == 'quick' else 1200)
    allres = []; failing = []
    global END
    END = t0 + 600 if a.tier == 'quick' and not a.limit else 0
    for sp in specs:
        global MOD, LIDIR, DM
        MOD = ir.Module(open(linked[sp.path]).read())
        names = list(MOD.functions) + list(MOD.declares)
        dm = demangle(names); rev = {}; DM = dm; LIDIR = sp.loopinv
        for k, v in dm.items(): rev.setdefault(v, []).append(k)
        repl = {}
        for sig, stub in sp.replace:
            ks = [k for v, kk in rev.items() for k in kk if v == sig or (sig.startswith('~') and re.search(sig[1:], v))]
            for k in ks: repl[k] = stub
        jobs = []
        for h in sp.harness:
            if a.only and not re.search(a.only, h): continue
            o = dict(sp.opts.get('*', {})); o.update(sp.opts.get(h, {}))
            if a.tier == 'thorough': o['obl_ms'] = max(60000, o.get('obl_ms', 0))
            jobs.append((h, repl, o, o.get('limit', limit)))
        with mp.Pool(8, maxtasksperchild=1) as pool:
            first = list(pool.imap_unordered(run_harness, jobs, chunksize=1))
            # undecided (not refuted) obligations: once more with four times the solver time
            again = [j for j in jobs for r in first if r['harness'] == j[0] and r['status'] == 'failed' and any(v.get('verdict') == 'unknown' for v in r['violations']) and not any(v.get('verdict') == 'refuted' for v in r['violations'])]
            again = [(h, rp, dict(o, obl_ms=4 * o.get('obl_ms', 20000), feas_ms=4 * o.get('feas_ms', 3000)), 4 * lim) for h, rp, o, lim in again]
            second = {r['harness']: r for r in pool.imap_unordered(run_harness, again, chunksize=1)}
            for r in first:
                if r['harness'] in second and (second[r['harness']]['status'] != 'out-of-reach'): r = second[r['harness']]
                r['spec'] = sp; r['dm'] = dm
                allres.append(r)
                if a.v or r['status'] != 'ok':
                    print('%-9s %-40s paths=%d instr=%d %.1fs obls=%s covers=%s %s' % (r['status'], r['harness'], r['paths'], r['instr'], r['t'],
                        {k: '%d/%d' % (v['proved'], v['n']) for k, v in r['obls'].items()} if a.v else '', {k: v for k, v in r['covers'].items()} if a.v else '', r.get('reason', '').strip().split('\n')[-1]))
                    if a.v:
                        if r['loopinv'] or r['li_why']: print('   loops', r['loopinv'][:6], r['li_why'][:4])
                        for v in r['violations'][:3]: print('   FAIL', json.dumps(v, indent=1)[:1800])
    # ------------------------------------------------------------ decide
    viol = []; bounded = []
    tools = {}
    def native_exe(sp):
        if sp.path not in tools: tools[sp.path] = build_native(sp, th)
        return tools[sp.path]
    rdir = os.path.join(ROOT, 'evidence', 'replay', prop)
    for r in sorted(allres, key=lambda r: r['harness']):
        h = r['harness']; sp = r['spec']
        badcov = [c for c, v in r['covers'].items() if v == 'unsat'] if r['status'] == 'ok' else []
        wanted = re.findall(r'vc_cover\("([^"]*)"\)', harness_text(sp, h))
        missing = [c for c in wanted if c not in r['covers']] if r['status'] == 'ok' else []
        nobl = sum(v['n'] for v in r['obls'].values())
        if r['status'] == 'ok' and nobl > 0 and not badcov and not missing:
            if a.native:
                exe, err = native_exe(sp)
                if exe:
                    rc, out, e2 = native_run(exe, h, seed, 20000, 10)
                    print('native', h, rc, out.strip().split('\n')[0:6], e2[-300:] if rc else '')
                else: print('native build failed', err)
            continue
        if r['status'] == 'ok':
            info = {'label': 'cover: %s is not reachable under the precondition' % (', '.join(badcov + missing) or 'no obligation'), 'verdict': 'vacuous', 'values': None, 'where': '', 'goal': ''}
            r['violations'] = [info]
        exe, err = native_exe(sp)
        conf = None; searched = ''
        if exe and END and time.time() > END + 180 and viol: searched = 'no time left to search'
        elif exe:
            for v in r.get('violations', [])[:4]:
                if v.get('values'):
                    rc, out, e2 = native_run(exe, h, seed, 1, 20, v['values'])
                    if rc == 3: conf = ('replay of the solver model', v, out, e2); break
                    rc, out, e2 = native_run(exe, h, seed, 20000, 10, v['values'], 0.3)
                    if rc == 3: conf = ('search near the solver model', v, out, e2); break
            if not conf:
                rc, out, e2 = native_run(exe, h, seed, 400000 if a.tier == 'quick' else 4000000, 25 if a.tier == 'quick' else 120)
                searched = out.strip().split('\n')[-1] if out else e2[-200:]
                if rc == 3: conf = ('search over admissible inputs', (r.get('violations') or [None])[0], out, e2)
        else: searched = 'native build failed: ' + (err or '')[-500:]
        if conf:
            viol.append((h, sp, r, conf, searched))
        elif r['status'] == 'out-of-reach':
            bounded.append({'harness': h, 'reason': r['reason'][-300:], 'stand_in': 'bounded: contract evaluated on concrete inputs, ' + searched})
        else:
            viol.append((h, sp, r, None, searched))
    rc = 0; known = known_findings(prop); found = [v for v in viol if v[0] in known]; viol = [v for v in viol if v[0] not in known]
    for v in found: print('KNOWN-FINDING: property=%s %s' % (prop, known[v[0]]))
    for (h, sp, r, conf, searched) in viol:
        os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, h + '.txt')
        with open(p, 'w') as f:
            f.write('property %s\nharness %s (%s)\ncontract: %s\n' % (prop, h, os.path.basename(sp.path), sp.contracts.get(h, '')))
            for v in r.get('violations', []): f.write('failed obligation: %s\n%s\n' % (v['label'], json.dumps(v, indent=1, default=str)))
            if r.get('reason'): f.write('verifier: %s\n' % r['reason'])
            if conf: f.write('\nconfirmed on the compiled code by %s\n%s\n%s\n' % (conf[0], conf[2], conf[3][-4000:]))
            else: f.write('\nno failing input found; %s\n' % searched)
        lab = r['violations'][0]['label'] if r.get('violations') else r.get('reason', '')
        print('failed obligation [%s] %s' % (h, lab))
        if conf: print('  ' + ' | '.join(conf[2].strip().split('\n')[:8]))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if conf else ' no-failing-input-found')); rc = 1
    for b in bounded: print('BOUNDED %s: %s -- %s' % (b['harness'], b['reason'].strip().split('\n')[-1], b['stand_in']))
    write_evidence(prop, a.tier, seed, specs, allres, viol, bounded, time.time() - t0)
    tot = sum(v['n'] for r in allres for v in r['obls'].values()); pr = sum(v['proved'] for r in allres for v in r['obls'].values())
    print('%s: %d harnesses, %d obligations (path instances), %d discharged, %d bounded stand-ins, %.0f s' % (prop, len(allres), tot, pr, len(bounded), time.time() - t0))
    return rc

def known_findings(prop):
    """KNOWN-FINDING: property=<id> harness=<name> <what fails>   (known_findings.txt; never written at run time)"""
    out = {}; p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'KNOWN-FINDING:\s+property=(\w+)\s+(harness=(\w+)\s+.*)', ln)
            if m and m.group(1) == prop: out[m.group(3)] = m.group(2).strip()
    return out

def harness_text(sp, h):
    m = re.search(r'VC_HARNESS\(%s\)(.*?)(?=\n\s*VC_HARNESS\(|\Z)' % h, sp.text, re.S)
    return m.group(1) if m else ''

TRUST = ['clang 18 front end and -O1 IR pipeline, llvm-link', 'the VC generator /verif/vc (IR semantics, rational normal form)', 'z3, cvc5',
         'doubles are mathematical reals plus tracked nan/inf: rounding, overflow, underflow and signed zero are not modelled; literals are read as the nearest simple rational / multiple of pi',
         'symbolic machine integers are mathematical integers (no wrap-around)',
         'libm functions are axiomatised (sqrt, sin, cos, acos, asin, atan2, exp, log: identities, ranges, monotonicity)',
         'libstdc++: header code is executed from its real source; rb-tree, hashing policy and std::string bodies come from /verif/vc/rt.cpp; streams and exception message texts are no-ops; allocation never fails']
def write_evidence(prop, tier, seed, specs, allres, viol, bounded, wall):
    fns = set(); solver = {}; obl = 0; dis = 0; names = []; be = {}; replaced = set(); safety = {}; loopinv = []
    for r in allres:
        for f in r['called']:
            d = r['dm'].get(f, f)
            if d.startswith('siren::') or ' siren::' in d.split('(')[0]: fns.add(d)
        for f in r['replaced']: replaced.add(r['dm'].get(f, f))
        for k, (n, t) in r['solver'].items():
            x = solver.setdefault(k, [0, 0.0]); x[0] += n; x[1] += t
        if any(b['harness'] == r['harness'] for b in bounded): continue
        for l, v in r['obls'].items():
            obl += v['n']; dis += v['proved']; names.append('%s/%s x%d' % (r['harness'], l, v['n']))
            for b, n in v['be'].items(): be[b] = be.get(b, 0) + n
        for k, n in r['safety'].items(): safety[k] = safety.get(k, 0) + n
        loopinv += r['loopinv']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt /verif/vc/run.py %s' % prop,
                       'trusted_base': TRUST + ['assumed contract (checked elsewhere or trusted): ' + x for x in sorted(replaced)],
                       'harnesses': len(allres), 'paths': sum(r['paths'] for r in allres), 'discharged_by': be,
                       'functions_under_contract': {r['harness']: r['spec'].contracts.get(r['harness'], '') for r in allres},
                       'functions_executed': sorted(fns), 'named_obligations': names, 'solver_calls_seconds': {k: [v[0], round(v[1], 2)] for k, v in solver.items()},
                       'array_bounds_obligations': safety, 'loop_invariants': loopinv, 'bounded_stand_ins': bounded},
          'assumptions': sorted(set(x for sp in specs for x in sp.assume)) + TRUST,
          'wall_s': round(wall, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__': sys.exit(main())

#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough] | --setup | --replay FILE

For a property, every run registered in registry.py is built from /repo's current tree (bitcode -> instrumented
symbolic executable, and a native executable), explored symbolically, cross-checked natively on sampled paths, and
each counterexample of the solver is replayed natively.  Only reproduced counterexamples are violations."""
import sys, os, json, subprocess, hashlib, time, shutil, threading, glob, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
LIBS = ['-lboost_coroutine', '-lboost_context', '-lboost_system', '-lboost_thread', '-lpthread']
CXX = ['clang++', '-std=c++1y', '-I' + REPO, '-I' + HERE + '/engine', '-I' + HERE + '/harness',
       '-Wno-deprecated-declarations', '-w']
OPT = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
sys.path.insert(0, HERE)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def must(cmd, what):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(what + ': ' + r.stdout[-3000:])

def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

ENGINE_SRC = [HERE + '/engine/' + f for f in ('SymPass.cpp', 'rt.cpp', 'alloc.h', 'native.cpp', 'sym.h')]

def engine():
    """Builds the engine (not the code under test) unless it is already there for these sources."""
    os.makedirs(BUILD, exist_ok=True)
    d = digest(ENGINE_SRC)
    stamp = BUILD + '/engine.stamp'
    if os.path.exists(stamp) and open(stamp).read() == d:
        return
    cxxflags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    jobs = [
        (['clang++', '-O1', '-w', '-fPIC', '-shared'] + cxxflags + [HERE + '/engine/SymPass.cpp', '-o', BUILD + '/SymPass.so'], 'pass'),
        (['clang++', '-O2', '-g', '-w', '-fPIC', '-c', HERE + '/engine/rt.cpp', '-o', BUILD + '/rt.o'], 'runtime'),
        (['clang++', '-O1', '-w', '-DSYM_ARENA', '-c', HERE + '/engine/native.cpp', '-o', BUILD + '/native_arena.o'], 'native'),
        (['clang++', '-O1', '-w', '-fsanitize=address,undefined', '-c', HERE + '/engine/native.cpp', '-o', BUILD + '/native_asan.o'], 'native asan'),
    ]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: must(*j), jobs))
    open(stamp, 'w').write(d)

def repo_files():
    out = []
    for r, _, fs in os.walk(REPO + '/sdd'):
        out += [os.path.join(r, f) for f in fs]
    return sorted(out)

class Binary:
    """One harness source with its defines."""
    def __init__(self, src, defs, work):
        self.src, self.defs = src, list(defs)
        self.name = src + ''.join('_' + d.replace('=', '').replace('-', '') for d in self.defs)
        self.dir = os.path.join(work, self.name)
        self.cc = f'{HERE}/harness/{src}.cc'
        self.flags = ['-D' + d for d in self.defs]
        self.error = None
    def build(self):
        cache = None
        if os.environ.get('VERIF_DEV_CACHE'):  # development only: never set by the registered commands
            k = digest(ENGINE_SRC + repo_files() + [self.cc] + sorted(glob.glob(HERE + '/harness/*.h'))) + self.name
            cache = BUILD + '/cache/' + k
            if os.path.exists(cache + '/sym'):
                self.dir = cache
                return
            self.dir = cache + '.tmp'
        os.makedirs(self.dir, exist_ok=True)
        d = self.dir
        def sym():
            must(CXX + OPT + self.flags + ['-emit-llvm', '-c', self.cc, '-o', d + '/h.bc'], 'compile ' + self.name)
            must(['opt-18', '-load-pass-plugin', BUILD + '/SymPass.so', '-passes=function(lowerswitch,scalarizer),symex,verify',
                  d + '/h.bc', '-o', d + '/s.bc'], 'instrument ' + self.name)
            must(['llc-18', '-O1', '-relocation-model=pic', '-filetype=obj', d + '/s.bc', '-o', d + '/s.o'], 'codegen ' + self.name)
            must(['clang++', '-rdynamic', d + '/s.o', BUILD + '/rt.o', '-o', d + '/sym', '-lz3'] + LIBS, 'link ' + self.name)
        def native():
            must(CXX + OPT + self.flags + [self.cc, BUILD + '/native_arena.o', '-o', d + '/native'] + LIBS, 'native ' + self.name)
        try:
            with ThreadPoolExecutor(2) as ex:
                for f in [ex.submit(sym), ex.submit(native)]:
                    f.result()
            for f in ('h.bc', 's.bc', 's.o'):
                os.unlink(d + '/' + f)
            if cache:
                shutil.rmtree(cache, ignore_errors=True); os.rename(self.dir, cache); self.dir = cache
        except BuildError as e:
            self.error = str(e)
    def asan(self):
        p = self.dir + '/asan'
        if not os.path.exists(p):
            must(CXX + ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] + self.flags +
                 [self.cc, BUILD + '/native_asan.o', '-fsanitize=address,undefined', '-o', p] + LIBS, 'asan ' + self.name)
        return p

def run_native(exe, inputs, env, timeout=30):
    e = dict(os.environ); e.update(env); e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=1'
    try:
        r = subprocess.run([exe, inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''

def confirm(binary, cand, env):
    """Replays a candidate natively: (confirmed, description)."""
    head = dict(l.split(' ', 1) for l in open(cand).read().splitlines() if l.startswith(('kind ', 'site ')))
    kind = head.get('kind', '?')
    rc, out, err = run_native(binary.dir + '/native', cand, env)
    for l in out.splitlines():
        if l.startswith('ASSERT-FAILED'):
            return True, l
        if l.startswith(('UNCAUGHT', 'HEAP-ERROR')):
            return True, l
    if rc == 'timeout':
        return True, 'HANG no result within 30 s'
    if isinstance(rc, int) and rc < 0:
        return True, f'CRASH signal {-rc}' + (' ' + err.strip().splitlines()[-1] if err.strip() else '')
    if rc in (3, 4):
        return False, f'native replay diverged ({out.strip()[-80:]})'
    if kind in ('mem', 'crash'):
        rc, out, err = run_native(binary.asan(), cand, env, 60)
        if 'AddressSanitizer' in err:
            m = [l for l in err.splitlines() if 'ERROR: AddressSanitizer' in l]
            return True, 'ASAN ' + (m[0].split('AddressSanitizer: ')[1] if m else '')
        if 'ASSERT-FAILED' in out or 'UNCAUGHT' in out or (isinstance(rc, int) and rc < 0):
            return True, 'ASAN-BUILD ' + out.strip().splitlines()[-1] if out.strip() else f'signal {rc}'
    return False, f'not reproduced natively (rc {rc})'

def parse_samples(fn):
    res, cur = [], None
    if os.path.exists(fn):
        for l in open(fn):
            l = l.rstrip('\n')
            if l == 'sample':
                cur = {'inputs': [], 'obs': []}
            elif cur is not None and l.startswith('input '):
                cur['inputs'].append(l)
            elif cur is not None and l.startswith('obs '):
                cur['obs'].append(l)
            elif l == 'end' and cur is not None:
                res.append(cur); cur = None
    return res

def load_known():
    p = HERE + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def main():
    if sys.argv[1] == '--setup':
        engine(); print('engine ready'); return 0
    if sys.argv[1] == '--replay':
        meta = json.loads(open(sys.argv[2]).readline()[2:])
        engine()
        b = Binary(meta['harness'], meta['defines'], BUILD + '/replay'); b.build()
        if b.error: print(b.error); return 2
        ok, desc = confirm(b, sys.argv[2], meta['env'])
        print(('REPRODUCED ' if ok else 'NOT-REPRODUCED ') + desc)
        return 1 if ok else 0
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    from registry import REG
    spec = REG[prop]
    engine()
    work = os.path.join(BUILD, 'work', f'{prop}.{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return check(prop, spec, tier, seed, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check(prop, spec, tier, seed, work, t0, only):
    runs = [r for r in spec['runs'] if (tier == 'thorough' or not r.get('thorough_only')) and (not only or only in r['src'] or only == r.get('label'))]
    bins = {}
    for r in runs:
        k = (r['src'], tuple(r.get('defs', ())))
        if k not in bins:
            bins[k] = Binary(r['src'], r.get('defs', ()), work)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda b: b.build(), bins.values()))
    errs = [b.name + ': ' + b.error for b in bins.values() if b.error]
    for e in errs:
        print('BUILD-ERROR ' + e[:1500])
    tbuild = time.time() - t0
    known = [k for k in load_known() if k['property'] == prop and not k.get('fixed')]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, unsat=0, sat=0, unknown=0,
               solver_s=0.0, assertions_evaluated=0, assertions_discharged_by_solver=0, inconclusive_paths=0, cut_paths=0,
               infeasible_branches_pruned=0, unreproduced_candidates=[], runs=[], assertion_sites={}, exhaustive=True)
    funcs, unsup, exts = set(), {}, set()
    violations, knownhits, problems = [], {}, []
    total = 0
    limit = spec.get('limit', {}).get(tier, 600 if tier == 'quick' else 3000)
    for ri, r in enumerate(runs):
        b = bins[(r['src'], tuple(r.get('defs', ())))]
        label = r.get('label') or b.name
        if b.error:
            cov['exhaustive'] = False; continue
        out = f'{work}/out{ri}'; os.makedirs(out)
        budget = r.get('budget', {}).get(tier, 120 if tier == 'quick' else 900)
        budget = max(5, min(budget, limit - (time.time() - t0)))
        env = {'SYM_P_' + k: str(v) for k, v in {**r.get('params', {}), **r.get(tier, {})}.items()}
        if r.get('alloc'):
            env['SYM_ALLOC'] = r['alloc']
        env['VERIF_TIER'] = tier
        e = dict(os.environ); e.update(env)
        e.update(SYM_OUT=out, SYM_BUDGET=str(budget), SYM_PAR='8', SYM_SAMPLES=str(r.get('samples', 24)), VERIF_SEED=str(seed), SYM_MAXCAND='60')
        for k, v in r.get('env', {}).items(): e[k] = str(v)
        p = subprocess.Popen([b.dir + '/sym'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        seen, stop = {}, False
        def look():
            nonlocal stop
            for c in sorted(glob.glob(out + '/cand_*.txt')):
                if c in seen: continue
                txt = open(c).read()
                if not txt.startswith('kind') or '\nsite ' not in txt: continue
                site = [l[5:] for l in txt.splitlines() if l.startswith('site ')][0]
                seen[c] = site
                if sum(1 for v in violations if v[1] == site and v[0] == label) >= 1: continue
                if any(kf['harness'] == r['src'] and kf['site'] == site and site in knownhits for kf in known): continue
                ok, desc = confirm(b, c, env)
                if not ok:
                    cov['unreproduced_candidates'].append(f'{label}: {site}: {desc}'); continue
                kf = [kf for kf in known if kf['harness'] == r['src'] and kf['site'] == site]
                if kf:
                    knownhits.setdefault(site, kf[0]['what']); continue
                os.makedirs(HERE + '/replay', exist_ok=True)
                f = f'{HERE}/replay/{prop}_{len(violations)}.txt'
                with open(f, 'w') as o:
                    o.write('# ' + json.dumps(dict(property=prop, harness=r['src'], defines=list(r.get('defs', ())), env=env, native=desc)) + '\n' + txt)
                violations.append((label, site, desc, f))
                stop = True
        tend = time.time() + budget + 40
        while p.poll() is None:
            time.sleep(0.1); look()
            if stop or time.time() > tend:
                try: os.killpg(p.pid, signal.SIGTERM)
                except ProcessLookupError: pass
                break
        if stop:
            time.sleep(0.3)
            os.system(f"pkill -9 -f '^{b.dir}/sym' >/dev/null 2>&1")
        try: p.wait(30)
        except subprocess.TimeoutExpired: p.kill(); os.system(f"pkill -9 -f '^{b.dir}/sym' >/dev/null 2>&1")
        look()
        if not os.path.exists(out + '/summary.json'):
            if not stop:
                problems.append(f'{label}: no summary')
            cov['exhaustive'] = False
            if stop: break
            continue
        s = json.load(open(out + '/summary.json'))
        # native cross-check of sampled paths
        agree = 0
        for i, smp in enumerate(parse_samples(out + '/samples.txt')):
            fn = f'{out}/smp{i}.txt'; open(fn, 'w').write('\n'.join(smp['inputs']) + '\n')
            rc, o, er = run_native(b.dir + '/native', fn, env)
            obs = [l for l in o.splitlines() if l.startswith('obs ')]
            if rc == 0 and 'DONE' in o and obs == smp['obs']:
                agree += 1
            elif rc in (1, 2) or rc == 'timeout' or (isinstance(rc, int) and rc < 0):
                problems.append(f'{label}: symbolic path passes, native run fails: rc {rc} {o.strip()[-120:]}')
            else:
                problems.append(f'{label}: symbolic/native disagreement on a sampled path (rc {rc})')
            if i < 3:
                cov['samples'].append({'run': label, 'inputs': [x[6:] for x in smp['inputs']][:40], 'observed': [x[4:] for x in smp['obs']][:20]})
        for lab in r.get('reach', ['end']):
            if s['reach'].get(lab, [0])[0] == 0:
                problems.append(f'{label}: vacuity: label "{lab}" not reached')
        exh = s['cut'] == 0 and s['unknown'] == 0 and s['inconclusive'] == 0 and s['crash_unrecorded'] == 0 and not s['unsupported']
        cov['exhaustive'] &= exh
        for a, k in (('states', 'paths'), ('transitions', 'symbolic_branches'), ('queries', 'queries'), ('sat', 'sat'), ('unsat', 'unsat'),
                     ('unknown', 'unknown'), ('solver_s', 'solver_s'), ('assertions_evaluated', 'asserts'), ('assertions_discharged_by_solver', 'asserts_smt'),
                     ('inconclusive_paths', 'inconclusive'), ('cut_paths', 'cut'), ('infeasible_branches_pruned', 'pruned')):
            cov[a] += s[k]
        cov['traces_validated_against_impl'] += agree
        for k, v in s['sites'].items():
            cov['assertion_sites'][k] = cov['assertion_sites'].get(k, 0) + v[0]
        funcs.update(s['functions']); exts.update(s['externals'])
        for k, v in s['unsupported'].items(): unsup[k] = unsup.get(k, 0) + v[0]
        cov['runs'].append(dict(run=label, bounds=r.get('bounds', ''), params={**r.get('params', {}), **r.get(tier, {})}, paths=s['paths'], exhaustive=exh, cut=s['cut'], asserts=s['asserts'],
                                queries=s['queries'], solver_s=s['solver_s'], wall_s=s['wall_s'], validated=agree, crash_unrecorded=s['crash_unrecorded'], reach={k: v[0] for k, v in s['reach'].items()}))
        print(f"run {label}: paths {s['paths']} cut {s['cut']} asserts {s['asserts']} queries {s['queries']} solver {s['solver_s']:.1f}s wall {s['wall_s']:.1f}s validated {agree} exhaustive {exh} cands {s['candidates']} crash_unrec {s['crash_unrecorded']}")
        if stop: break
    try:
        names = sh(['c++filt'], input='\n'.join(sorted(funcs))).stdout.splitlines()
    except Exception:
        names = sorted(funcs)
    lib = [n for n in names if n.startswith('sdd::') or ' sdd::' in n or 'boost::' not in n and 'sdd' in n]
    cov['functions_encoded'] = len(names); cov['library_functions_encoded'] = [n[:160] for n in lib][:400]
    cov['unsupported'] = unsup; cov['externals_called_concretely'] = sorted(exts)[:80]
    cov['solver_s'] = round(cov['solver_s'], 3); cov['build_s'] = round(tbuild, 1)
    cov['explanation'] = ('states = completed symbolic paths (each covers every input satisfying its path condition); transitions = symbolic branches decided; '
                          'queries = Z3 calls; traces_validated_against_impl = sampled paths whose model was replayed natively with the same observations.')
    cov['problems'] = problems + errs
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []) + ['bounds: ' + r.get('bounds', '') for r in runs if r.get('bounds')],
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    for q in problems: print('NOTE ' + q)
    for q in cov['unreproduced_candidates'][:10]: print('NOTE unreproduced candidate ' + q)
    for site, what in knownhits.items():
        print(f'KNOWN-FINDING: property={prop} {what}')
    for label, site, desc, f in violations:
        print(f'counterexample in {label}: {site}: {desc}')
        print(f'VIOLATION property={prop} replay={f}')
    print(f'{prop}: {len(violations)} violations, wall {time.time()-t0:.0f}s')
    if violations: return 1
    if errs and len(errs) == len(bins): return 2
    if cov['states'] == 0 and not knownhits: return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())

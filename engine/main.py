"""check <property>: verifies all contracts of a property against /repo's current source."""
import os, sys, time, json, signal, importlib, traceback, threading, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'contracts'))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
import build, contract, ir
import term as T

class Group:
    """contracts verified in one configuration; links: [(source, defs, flags or None, text or None)]"""
    def __init__(self, cfg, contracts, prelude='#include <Vc/Vc>\n', links=None, chunk=60):
        self.cfg = build.CONFIGS[cfg] if isinstance(cfg, str) else cfg
        self.contracts = contracts; self.prelude = prelude; self.links = links if links is not None else [CONST]
        self.chunk = chunk
CONST = ('$REPO/src/const.cpp', ['Vc_IMPL=Scalar' if False else 'Vc_COMPILE_LIB'], None, None)
def libsrc(path, defs=(), flags=None): return ('$REPO/' + path, list(defs), flags, None)

def fixlinks(links):
    return [(s.replace('$REPO', build.REPO) if s else s, d, f, t) for s, d, f, t in links]

_mods = {}
def load_module(path):
    m = _mods.get(path)
    if m is None:
        if len(_mods) > 12: _mods.clear()
        m = _mods[path] = ir.Module(open(path).read(), path)
    return m

TUS = []   # (group, [contracts], ll path, [link ll])
ARGS = {}

def _alarm(sig, frm): raise contract.Timeout()

def verify_task(a):
    ti, ci = a
    g, cs, ll, links = TUS[ti]
    c = cs[ci]
    res = []
    def work():
        try:
            mods = [load_module(ll)] + [load_module(l) for l in links]
            if ARGS.get('selftest'):
                import selftest
                res.append(selftest.run(c, mods, g.cfg, ARGS['seed'], ll[:-3] + '.so'))
            else:
                res.append(contract.check_contract(c, mods, g.cfg, ARGS['seed'], ARGS['thorough'], replay_dir=ARGS['replay_dir'], prop=ARGS['prop']))
        except contract.Timeout:
            o = contract.Outcome(c.name); o.status = 'undecided'; o.undecided.append('time limit')
            o.violations.append(contract.report_undecided(c, g.cfg, o, ARGS['replay_dir'], ARGS['prop'])); res.append(o)
        except MemoryError:
            o = contract.Outcome(c.name); o.status = 'error'; o.error = 'memory'; res.append(o)
        except Exception as e:
            o = contract.Outcome(c.name); o.status = 'error'; o.error = traceback.format_exc()[-1500:]
            o.violations.append(contract.report_undecided(c, g.cfg, o, ARGS['replay_dir'], ARGS['prop'])); res.append(o)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(c.opts.get('time_limit', ARGS['time_limit'])))
    try: work()
    except contract.Timeout:
        o = contract.Outcome(c.name); o.status = 'undecided'; o.undecided.append('time limit'); res.append(o)
    finally: signal.alarm(0)
    o = res[0]
    o.config = g.cfg.name
    return ti, ci, o

def init_worker():
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    sys.setrecursionlimit(200000)

def run_property(prop, tier, seed, only=None, selftest=False, verbose=False, cfgs=None, jobs=8):
    t0 = time.time()
    ARGS.update(seed=seed, thorough=tier == 'thorough', prop=prop, replay_dir=os.path.join(ROOT, 'out', 'replay', prop), time_limit=240 if tier == 'quick' else 1200, selftest=selftest)
    import shutil
    if not only: shutil.rmtree(ARGS['replay_dir'], ignore_errors=True)
    mod = importlib.import_module(prop)
    groups = mod.groups(tier)
    if cfgs: groups = [g for g in groups if g.cfg.name in cfgs]
    wd = build.workdir()
    import smt
    smt.LEMMAS = os.path.join(wd, 'lemmas'); os.makedirs(smt.LEMMAS, exist_ok=True)
    linkjobs = {}
    for g in groups:
        cs = g.contracts
        if only: cs = [c for c in cs if any(o in c.name for o in only)]
        names = set()
        for c in cs:
            if c.name in names: raise Exception('duplicate contract ' + c.name)
            names.add(c.name)
            c.prelude = g.prelude; c.links = fixlinks(g.links)
        gl = []
        for s, d, f, t in fixlinks(g.links):
            key = (s, tuple(d), tuple(f or g.cfg.march), g.cfg.gcc, t)
            if key not in linkjobs:
                import hashlib
                h = hashlib.md5(repr(key).encode()).hexdigest()[:10]
                out = os.path.join(wd, 'link_%s.ll' % h)
                src = s
                if t is not None:
                    src = os.path.join(wd, 'link_%s.cpp' % h)
                    open(src, 'w').write(t)
                cc = build.Config(g.cfg.name, f or g.cfg.march, d, g.cfg.gcc)
                linkjobs[key] = (build.clang_cmd(cc, src, out), out)
            gl.append(linkjobs[key][1])
        # even chunks
        n = max(1, -(-len(cs) // g.chunk)) if cs else 0
        for k in range(n):
            part = cs[k::n]
            i = len(TUS)
            TUS.append((g, part, os.path.join(wd, 'tu_%d.ll' % i), gl))
    if not TUS: print('no contracts selected'); return 2
    def compile_tu(i):
        g, part, ll, gl = TUS[i]
        src = ll[:-3] + '.cpp'
        with open(src, 'w') as f:
            f.write(g.prelude)
            for c in part: f.write(c.source())
        rc, err = build.run(build.clang_cmd(g.cfg, src, ll))
        if not rc and selftest:
            objs = []
            for k, (s_, d_, f_, t_) in enumerate(fixlinks(g.links)):
                o = ll[:-3] + '_%d.o' % k
                if t_ is not None:
                    s_ = ll[:-3] + '_%d_l.cpp' % k
                    open(s_, 'w').write(t_)
                rc, err = build.run(['g++' if g.cfg.gcc else 'clang++', *build.CXX, *(f_ or g.cfg.march), *['-D' + x for x in d_], '-O1', '-fPIC', '-c', s_, '-o', o])
                if rc: return i, rc, err
                objs.append(o)
            rc, err = build.run(build.gcc_cmd(g.cfg, src, ll[:-3] + '.so') + objs)
        return i, rc, err
    outs = []; errors = []
    ctx = mp.get_context('fork')
    contract.SEARCHES = ctx.Value('i', 16)
    pool = ctx.Pool(jobs, initializer=init_worker, maxtasksperchild=60)
    done = threading.Semaphore(0)
    pending = [0]
    lock = threading.Lock()
    def cb(r):
        with lock: outs.append(r)
        if verbose:
            o = r[2]
            print('%-44s %-8s %-10s obl=%d %s t=%.2f %s' % (o.name, o.config, o.status, o.obligations, o.backends, o.time, o.error or '; '.join(o.undecided[:2]) or ('; '.join(v['desc'] + ' ' + str(v['inputs'])[:300] for v in o.violations[:1]))), flush=True)
    def ecb(e):
        with lock: errors.append('worker: %r' % (e,))
    with ThreadPoolExecutor(jobs) as tp:
        lf = [tp.submit(build.run, cmd) for cmd, out in linkjobs.values()]
        # big units first
        tf = [tp.submit(compile_tu, i) for i in sorted(range(len(TUS)), key=lambda i: -len(TUS[i][1]))]
        for f in lf:
            rc, err = f.result()
            if rc: errors.append('library source does not compile: ' + err[:1500])
        asyncs = []
        from concurrent.futures import as_completed
        if not errors:
            for f in as_completed(tf):
                i, rc, err = f.result()
                if rc:
                    errors.append('extraction failed: ' + err[:3000]); continue
                for ci in range(len(TUS[i][1])):
                    asyncs.append(pool.apply_async(verify_task, ((i, ci),), callback=cb, error_callback=ecb))
    t_comp = time.time() - t0
    deadline = t0 + (820 if tier == 'quick' else 36000)
    for a in asyncs:
        try: a.wait(max(1, deadline - time.time()))
        except Exception as e: errors.append(repr(e))
        if time.time() > deadline: errors.append('time budget exhausted'); break
    pool.terminate()
    return finish(prop, tier, seed, groups, [o for _, _, o in outs], errors, t0, t_comp, mod, only, selftest)

def finish(prop, tier, seed, groups, outs, errors, t0, t_comp, mod, only, selftest):
    if selftest:
        import collections
        cnt = collections.Counter(o.status for o in outs)
        for o in outs:
            if o.status == 'error': print('SELFTEST MISMATCH %s [%s]: %s' % (o.name, o.config, o.error))
        for e in errors: print('error:', e[:2000])
        print('selftest %s: %s, %d executions compared, %.1fs' % (prop, dict(cnt), sum(o.obligations for o in outs), time.time() - t0))
        return 1 if cnt['error'] or errors else 0
    known = load_known(prop)
    total = sum(o.obligations for o in outs)
    back = {}
    for o in outs:
        for k, v in o.backends.items(): back[k] = back.get(k, 0) + v
    discharged = sum(back.values())
    fns = {}
    for o in outs:
        for k, v in o.functions.items(): fns[k] = fns.get(k, 0) + v
    trusted = sorted(set(x for o in outs for x in o.trusted))
    viols = []; kf = []
    for o in outs:
        for v in o.violations:
            k = match_known(known, v)
            if k: kf.append((k, v))
            else: viols.append((o, v))
    und = [(o.name, o.config, o.undecided) for o in outs if o.status == 'undecided']
    errs = [(o.name, o.config, o.error) for o in outs if o.status == 'error']
    seen = set()
    for k, v in kf:
        if k['what'] in seen: continue
        seen.add(k['what'])
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if errors and not viols:
        os.makedirs(ARGS['replay_dir'], exist_ok=True)
        path = os.path.join(ARGS['replay_dir'], 'errors.json')
        json.dump({'property': prop, 'verifier_output': errors}, open(path, 'w'), indent=1)
        v = {'path': path, 'confirmed': False, 'kind': 'undischarged', 'desc': errors[0][:300], 'inputs': {}, 'contract': 'all', 'config': 'all'}
        viols.append((contract.Outcome('extraction'), v))
    viols.sort(key=lambda p: (not p[1]['confirmed'], p[0].name))
    confirmed = [p for p in viols if p[1]['confirmed']]
    for o, v in (confirmed or viols)[:5]:
        print('  obligation failed: %s [%s] %s: %s  inputs %s' % (v['contract'], v['config'], v['kind'], v['desc'], str(v['inputs'])[:400]))
    if viols:
        o, v = viols[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, v['path'], '' if v['confirmed'] else ' no-failing-input-found'))
    for n, c, u in und[:10]: print('  undecided: %s [%s] %s' % (n, c, '; '.join(u)[:300]))
    for n, c, e in errs[:10]: print('  error: %s [%s] %s' % (n, c, e[:1500]))
    for e in errors[:5]: print('  error: ' + e)
    wall = time.time() - t0
    dem = contract.demangle(list(fns)[:4000])
    vcf = sorted(set(d for d in dem if 'Vc_1::' in d))
    status = 1 if viols else 0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': total - len([1 for k, v in kf]), 'discharged': discharged,
              'checker_cmd': 'VERIF_TIER=%s ./check %s' % (tier, prop),
              'discharged_by': back, 'contracts': len(outs), 'contracts_proved': len([o for o in outs if o.status == 'proved']),
              'configurations': sorted(set(o.config for o in outs)),
              'functions_executed_under_contract': len(vcf), 'functions_sample': [x[:200] for x in vcf[:25]],
              'contract_sample': ['%s: %s' % (o.name, o.api[:120]) for o in outs[:12]] ,
              'preconditions_covered_by_a_sample': sum(o.covered for o in outs),
              'ir_instructions_executed': sum(o.steps for o in outs),
              'solver_time_s': round(sum(o.solver_time for o in outs), 2), 'extraction_time_s': round(t_comp, 2),
              'bounded': getattr(mod, 'BOUNDED', []), 'undecided': [list(map(str, u)) for u in und[:20]],
              'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])) + ['uninterpreted: ' + x for x in trusted]},
          'assumptions': ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': len(viols)}
    ev['coverage']['obligations'] = total - sum(1 for k, v in kf)
    if not only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    slow = sorted(outs, key=lambda o: -o.time)[:3]
    print('%s: %d contracts, %d obligations, discharged %d %s; compile %.1fs, solver %.1fs, wall %.1fs; slowest %s' % (
        prop, len(outs), total, discharged, back, t_comp, sum(o.solver_time for o in outs), wall, ', '.join('%s[%s] %.1fs' % (o.name, o.config, o.time) for o in slow)))
    return status

TRUSTED = ['clang 18 front end (C++ to LLVM IR without optimisation passes)', 'the verification-condition generator /verif/engine (differentially tested by ./check --selftest)',
           'the semantics given to x86 intrinsics and inline assembly in /verif/engine/x86.py', 'z3 and cvc5']
ASSUME = ['g++ 13 translates the extracted source like clang\'s front end does (Vc\'s GCC branches are selected in the extraction)',
          'signed integer overflow wraps, as the vector instructions do', 'floating-point expressions are not contracted or reassociated by the compiler; NaN payloads are not distinguished',
          'type punning in the headers behaves as with -fno-strict-aliasing']

def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]
def match_known(known, v):
    import fnmatch
    for k in known:
        m = k['match']
        if fnmatch.fnmatch(v['contract'], m['contract']) and fnmatch.fnmatch(v['config'], m.get('config', '*')) and fnmatch.fnmatch(v['kind'], m.get('kind', '*')) and fnmatch.fnmatch(v['desc'], m.get('desc', '*')):
            return k
    return None

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only', action='append'); ap.add_argument('--cfg', action='append')
    ap.add_argument('-v', action='store_true'); ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = run_property(a.prop, a.tier, seed, a.only, a.selftest, a.v, a.cfg, a.j)
    sys.stdout.flush()
    return rc

if __name__ == '__main__':
    sys.modules['main'] = sys.modules['__main__']
    res = []
    def go():
        try: res.append(main())
        except SystemExit as e: res.append(e.code)
        except BaseException: traceback.print_exc(); res.append(2)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); sys.stderr.flush()
    import shutil
    if build._wd: shutil.rmtree(build._wd, ignore_errors=True)
    os._exit(res[0] if res and res[0] is not None else 2)

"""Contracts on the public operations of Vc and the machinery that checks them.

A contract names an operation (a one-call wrapper instantiated from /repo's headers), its
parameters (typed memory with exact extent, alignment and frame), a precondition and a list of
postconditions.  `check_contract` executes the front-end IR of the wrapper and everything it calls
symbolically and discharges each generated obligation."""
import os, sys, time, json, random, subprocess, hashlib, re
import term as T
from term import const, conj, disj, bnot, ite, TRUE, FALSE
import ir, smt, z3
import exec as X

class P:
    """pointer parameter: `count` elements of `bits` bits, kind f/s/u/b(ool byte)/m(ask lane)/raw"""
    def __init__(self, name, ctype, kind, bits, count, mode='in', align=None, size=None, fields=None, stride=None, off=0, misaligned=False):
        self.name = name; self.api = ''; self.ctype = ctype; self.kind = kind; self.bits = bits; self.count = count
        self.mode = mode; self.is_ptr = True
        if fields is None:
            stride = stride or bits // 8
            fields = [(i * stride, bits, kind, '%s[%d]' % (name, i)) for i in range(count)]
            if size is None: size = stride * count
        self.fields = fields; self.size = size
        self.align = align or max(1, bits // 8)
        self.off = off             # pointer passed = object start + off
class A:
    """pointer to a byte array of symbolic contents and (possibly symbolic) size"""
    def __init__(self, name, ctype, mode='in', align=1, size=None, off=None):
        self.name = name; self.ctype = ctype; self.mode = mode; self.align = align; self.size = size; self.off = off
        self.is_ptr = True; self.kind = 'array'
class V:
    """scalar by value"""
    def __init__(self, name, ctype, bits, kind='s'):
        self.name = name; self.ctype = ctype; self.bits = bits; self.kind = kind; self.is_ptr = False
class Ret:
    def __init__(self, ctype, bits, kind='s'):
        self.ctype = ctype; self.bits = bits; self.kind = kind

class Contract:
    def __init__(self, name, params, body, ret=None, pre=None, post=None, throws=None, aborts=None, api=None, decl='', setup=None, opts=None, samples=24):
        self.name = name; self.params = params; self.body = body; self.ret = ret
        self.pre = pre; self.post = post; self.throws = throws; self.aborts = aborts
        self.api = api or body; self.decl = decl; self.setup = setup; self.opts = opts or {}
        self.samples = samples
    def source(self):
        args = ', '.join('%s%s' % (p.ctype + (' ' if p.ctype[-1].isalnum() or p.ctype[-1] == '>' else ''), p.name) for p in self.params)
        r = self.ret.ctype if self.ret else 'void'
        return '%s\nextern "C" %s %s(%s) { %s }\n' % (self.decl, r, self.name, args, self.body)

class Env:
    """values seen by pre/post: e['a'] initial elements, e.out['r'] final ones, e.ret"""
    def __init__(self): self.ini = {}; self.out = {}; self.ret = None; self.x = {}
    def __getitem__(self, k): return self.ini[k]

def kind_in(kind, bits, label):
    """(logical value, stored term)"""
    if kind == 'b':
        v = T.var(label, 1); return v, T.zext(v, 8)
    if kind == 'm':
        v = T.var(label, 1); return v, T.sext(v, bits)
    v = T.var(label, bits)
    return v, v
def kind_out(kind, bits, t):
    """(logical value, well-formedness goal)"""
    if kind == 'b': return T.extract(t, 0, 0), T.eq(T.extract(t, bits-1, 1), const(0, bits-1))
    if kind == 'm':
        v = T.msb(t)
        return v, T.eq(t, T.sext(v, bits))
    return t, TRUE

def fsame(a, b):
    """equal as floating-point results: same bits, or both NaN"""
    return disj(T.eq(a, b), conj(T.fnan(a), T.fnan(b)))
def same(kind):
    return fsame if kind == 'f' else T.eq

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, timeout=20)
        return p.stdout.split('\n')
    except Exception: return list(names)

class Outcome:
    def __init__(self, name):
        self.name = name; self.status = 'proved'; self.obligations = 0; self.backends = {}
        self.solver_time = 0.0; self.time = 0.0; self.violations = []; self.undecided = []; self.error = None
        self.api = ''; self.functions = {}; self.trusted = []; self.steps = 0; self.covered = 0; self.bounded = []; self.nothing = None

SPECIAL_F = {32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x80800000, 0x7f7fffff, 0xff7fffff, 0x3f000000, 0xbf000000, 0x3fc00000, 0x40200000, 0xc0200000, 0x4b000000, 0x4b800000, 0xcb000001, 0x4f000000, 0xcf000000, 0x3effffff, 0x4effffff, 0x4f800000, 0x40000000, 0x40400000],
 64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 1, (1 << 63) | 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3fe0000000000000, 0xbfe0000000000000, 0x3ff8000000000000, 0x4004000000000000, 0xc004000000000000, 0x4330000000000000, 0x4340000000000000, 0x41e0000000000000, 0xc1e0000000000000, 0x3fdfffffffffffff, 0x4008000000000000, 0x41dfffffffc00000, 0x41f0000000000000]}
def rand_val(rng, kind, bits, profile):
    if bits == 1: return rng.getrandbits(1)
    if kind == 'f' and bits in (32, 64):
        r = rng.random()
        if profile == 'small' or r < 0.25:
            v = rng.choice([rng.randint(-40, 40), rng.randint(-40, 40) / 2, rng.randint(-4000, 4000) / 16])
            return T.f2bits(float(v), bits)
        if profile == 'special' or r < 0.55: return rng.choice(SPECIAL_F[bits])
        if r < 0.8:
            return T.f2bits(rng.uniform(-1, 1) * 10.0 ** rng.randint(-8, 12), bits)
        return rng.getrandbits(bits)
    if kind == 'b': return rng.getrandbits(1)
    r = rng.random()
    m = (1 << bits) - 1
    if profile == 'small' or r < 0.3: return rng.randint(-20, 20) & m if r < 0.7 else rng.randint(0, 9) & m
    if profile == 'special' or r < 0.55:
        return rng.choice([0, 1, m, 1 << (bits-1), (1 << (bits-1)) - 1, (1 << (bits-1)) + 1, m - 1, 2, 1 << (bits // 2), (1 << (bits // 2)) - 1, 0x8000 & m, 0x7fff & m, 0xffff & m])
    if r < 0.75: return rng.getrandbits(rng.randint(1, bits))
    return rng.getrandbits(bits)

class Sampler:
    def __init__(self, kinds, seed, hints=None):
        self.rng = random.Random(seed); self.kinds = kinds; self.n = 0; self.hints = hints or {}
    def sample(self):
        self.n += 1
        prof = ('mixed', 'special', 'small', 'random', 'distinct')[self.n % 5]
        rng = self.rng; vals = {}
        ctr = [rng.randint(1, 50)]
        pool = {}
        def env(v):
            if v in vals: return vals[v]
            if v.w == 'A':
                seed = rng.getrandbits(64)
                r = vals[v] = (lambda o, s=seed: (o * 0x9E3779B97F4A7C15 + s * 0x2545F4914F6CDD1D >> 29) & 255)
                return r
            k = self.kinds.get(v)
            name = str(v.k)
            h = self.hints.get(v)
            if h is not None and rng.random() < 0.9: x = h(rng) & ((1 << v.w) - 1)
            elif name.startswith('base:'):
                x = (0x10000000 + 0x100000 * (len(vals) + 1) + (rng.randrange(64) << max(0, X.ALIGNED.get(v, 0)))) & ~((1 << X.ALIGNED.get(v, 0)) - 1)
            elif prof == 'distinct' and k in ('f', 's', 'u'):
                ctr[0] += 1
                x = T.f2bits(float(ctr[0]), v.w) if k == 'f' else ctr[0] & ((1 << v.w) - 1)
            else:
                p = pool.setdefault((k, v.w), [])
                if p and rng.random() < 0.15: x = rng.choice(p)
                else: x = rand_val(rng, k or 'u', v.w, prof)
                p.append(x)
            vals[v] = x
            return x
        return env, vals

def build_env(c, ex, st):
    """creates the parameter objects; returns (args, env, objs)"""
    env = Env(); args = []; objs = {}; kinds = {}
    for p in c.params:
        if not p.is_ptr:
            if p.kind == 'b' or p.bits == 1:
                v = T.var(p.name, 1); env.ini[p.name] = v; args.append(v); kinds[v] = 'b'
            else:
                v = T.var(p.name, p.bits); env.ini[p.name] = v; args.append(v); kinds[v] = p.kind
            continue
        if p.kind == 'array':
            size = p.size(env) if callable(p.size) else p.size
            o = ex.new_obj(st, p.name, size, p.align, 'param', writable=(p.mode != 'in'), arr=True, init=T.arrvar('mem:' + p.name))
            o.base_name = p.name
            env.ini[p.name] = T.arrvar('mem:' + p.name)
            objs[p.name] = o
            off = p.off(env) if callable(p.off) else const(p.off or 0, 64)
            args.append(T.add(o.base, off))
            continue
        o = ex.new_obj(st, p.name, p.size, p.align, 'param', writable=(p.mode != 'in'))
        cells = [None] * p.size
        vals = []
        for off, bits, kind, label in p.fields:
            if p.mode == 'out': continue
            v, t = kind_in(kind, bits, label)
            vals.append(v); kinds[v] = kind
            for i in range(bits // 8): cells[off + i] = (t, i)
        if p.mode == 'out':
            # previous contents: arbitrary, but fixed
            for off, bits, kind, label in p.fields:
                t = T.var('old:' + label, bits)
                for i in range(bits // 8): cells[off + i] = (t, i)
        st.mem[o.id] = X.ObjState(st, cells)
        env.ini[p.name] = vals
        objs[p.name] = o
        args.append(T.add(o.base, const(p.off, 64)))
    env.objs = objs
    env.kinds = kinds
    return args, env, objs

def read_out(c, ex, st, env, objs):
    wf = []
    for p in c.params:
        if not p.is_ptr: continue
        if p.kind == 'array':
            env.out[p.name] = st.mem[objs[p.name].id].arr; continue
        if p.mode == 'in': continue
        os = st.mem[objs[p.name].id]
        vals = []
        for off, bits, kind, label in p.fields:
            t = ex.load_bytes(st, objs[p.name], os, off, bits // 8)
            v, g = kind_out(kind, bits, t)
            if g is not TRUE: wf.append(('well-formed %s' % label, g))
            vals.append(v)
        env.out[p.name] = vals
    return wf

def norm_post(r):
    """post functions return an iterable of (description, goal)"""
    return list(r) if r is not None else []

class Timeout(Exception): pass

def literals(pre):
    m = {}
    for x in (pre.args if pre.op == 'band' else (pre,)):
        if x.op == 'not': m[x.args[0]] = FALSE
        elif x.op not in ('const', 'bor'): m[x] = TRUE
        if x.op == 'eq' and x.args[1].op == 'const' and x.args[0].op == 'var': m[x.args[0]] = x.args[1]
        if x.op == 'eq' and x.args[0].op == 'const' and x.args[1].op == 'var': m[x.args[1]] = x.args[0]
    return m

def unitprop(f):
    """substitutes the boolean literals of a conjunction into its other conjuncts"""
    done = {}
    for _ in range(4):
        if f.op != 'band': break
        new = {}
        for x in f.args:
            v, b = (x.args[0], FALSE) if x.op == 'not' else (x, TRUE)
            if v.op == 'var' and v not in done: new[v] = b
        if not new: break
        done.update(new)
        f = T.subst([f], new)[0]
    if not done or f is FALSE: return f
    return conj(f, *[v if b is TRUE else bnot(v) for v, b in done.items()])

def relevant(f, own):
    """the conjuncts of f connected, through shared variables, to the obligation itself; f is
    unsatisfiable if they are"""
    if f.op != 'band' or f.w != 1: return f
    vs = [(x, {v for v in T.topo([x]) if v.op == 'var'}) for x in f.args]
    reach = {v for v in T.topo([own]) if v.op == 'var'}
    take = set(); grown = True
    while grown:
        grown = False
        for i, (x, v) in enumerate(vs):
            if i not in take and v & reach: take.add(i); reach |= v; grown = True
    return conj(*[vs[i][0] for i in sorted(take)]) if take and len(take) < len(vs) else f

def check_contract(c, modules, cfg, seed=1, thorough=False, solver_ms=None, replay_dir=None, prop='?', known=()):
    t0 = time.time()
    oc = Outcome(c.name)
    oc.api = c.api
    facts = {}; T.FACTS.clear()
    solver_ms = solver_ms or c.opts.get('solver_ms', 60000)
    pre = None
    def feasible(ex, pc):
        f = conj(pc, pre) if pre is not None else pc
        if f is FALSE: return False
        r = smt.solve(f, 3000, second=False)
        oc.solver_time += r.time
        return r.status != 'unsat'
    env = None; sampler = None; base_pre = None
    ex = X.Executor(modules, feasible=feasible, externals=c.opts.get('externals'))
    ex.asm_hooks = c.opts.get('asm', {}); ex.static_init = c.opts.get('static_init', False)
    ex.always_check = c.opts.get('always_check', False)
    ex.global_init = c.opts.get('globals', {})
    if 'max_unroll' in c.opts: ex.max_unroll = c.opts['max_unroll']
    if 'budget' in c.opts: ex.budget = c.opts['budget']
    if 'loop_handlers' in c.opts: ex.loop_handlers = [h(ex) for h in c.opts['loop_handlers']]
    if 'contracts' in c.opts: ex.contracts = c.opts['contracts']
    st = X.State({}, TRUE)
    try:
        args, env, objs = build_env(c, ex, st)
        env.ex = ex; env.st = st
        if c.setup: c.setup(ex, st, env)
        pre = conj(*c.pre(env)) if c.pre else TRUE
        if 'facts' in c.opts:
            # equations that are part of the precondition; terms equal to their left side are rewritten
            for (op, a, b), r in c.opts['facts'](env):
                pre = conj(pre, T.eq(getattr(T, op)(a, b), r))
                facts[op, a, b] = r
            T.FACTS.update(facts)
        if pre is FALSE: raise X.Unsupported('contradictory precondition')
        env.pre = pre
        if c.opts.get('ctors'): st = ex.run_ctors(st)
        st2, ret = ex.run(c.name, args, st)
        obls = list(ex.obls)
        oc.obligations = ex.nobl
        ntriv = ex.ntriv
        env.ret = ret
        reach = st2.pc if st2 is not None else FALSE
        env.events = ex.events
        env.final = st2
        posts = []
        if st2 is not None:
            wf = read_out(c, ex, st2, env, objs)
            if c.ret and c.ret.kind == 'b' and ret.w == 8: env.ret = T.extract(ret, 0, 0)
            elif c.ret and not isinstance(ret, list) and ret is not None and ret.w != c.ret.bits: env.ret = T.trunc(ret, c.ret.bits)
            for d, g in wf + (norm_post(c.post(env)) if c.post else []):
                posts.append((d, g))
        for d, g in posts:
            oc.obligations += 1
            if g is TRUE or reach is FALSE: ntriv += 1
            else: obls.append(X.Obligation('post', d, reach, g, c.name))
        thr = c.throws(env) if c.throws else None
        for kind, pc, where in ex.events:
            oc.obligations += 1
            allowed = FALSE
            if kind in ('throw',) and c.throws: allowed = thr
            if kind in ('abort', 'trap') and c.aborts: allowed = c.aborts(env)
            obls.append(X.Obligation(kind, 'no %s outside its contract' % kind, pc, allowed, where))
        if thr is not None and thr is not FALSE and not c.opts.get('may_throw'):
            # must not return normally when it has to throw
            oc.obligations += 1
            obls.append(X.Obligation('post', 'reports failure instead of returning', reach, bnot(thr), c.name))
        if c.aborts:
            ab = c.aborts(env)
            oc.obligations += 1
            obls.append(X.Obligation('post', 'aborts instead of returning', reach, bnot(ab), c.name))
        oc.backends['rewriting'] = ntriv
        oc.steps = ex.steps
        oc.functions = dict(ex.fn_seen)
        oc.trusted = sorted(ex.trusted)
        if oc.obligations == 0: raise X.Unsupported('no obligations generated')
        axioms = list(ex.assumptions) + list(getattr(env, 'axioms', []))
        base_pre = conj(pre, *axioms)
        # ---- vacuity: the precondition is satisfiable and the exit reachable
        sampler = Sampler(env.kinds, seed * 1000003 + int(hashlib.md5(c.name.encode()).hexdigest()[:6], 16), c.opts.get('hints') and c.opts['hints'](env))
        goals = []
        lits = literals(base_pre)
        for o in obls:
            f = conj(o.pc, bnot(o.goal))
            if lits: f = T.subst([f], lits)[0]
            o.own = f
            f = unitprop(conj(base_pre, f))
            if f is FALSE: oc.backends['rewriting'] = oc.backends.get('rewriting', 0) + 1
            else: goals.append((o, f))
        covered = False
        terms = [base_pre, reach] + [f for _, f in goals]
        nsamp = c.samples if goals else 4
        refuted = {}
        good = 0; tries = 0
        while good < nsamp and tries < nsamp * (8 if base_pre is not TRUE else 1):
            tries += 1
            e, vals = sampler.sample()
            if base_pre is not TRUE:
                r0 = T.evaluate([base_pre], e)
                if not r0[0]: continue
            r = T.evaluate(terms if goals else terms[:2], e)
            good += 1
            if r[1]: covered = True
            for i, x in enumerate(r[2:]):
                if x and i not in refuted: refuted[i] = dict(vals)
        if not covered and not (c.throws or c.aborts):
            r = smt.solve(conj(base_pre, reach), 10000, second=False)
            if r.status == 'unsat':
                raise X.Unsupported('vacuous: precondition excludes every execution') if not ex.obls and not ex.events else None or X.Unsupported('vacuous')
        oc.covered = 1 if covered else 0
        viol = []
        for i, (o, f) in enumerate(goals):
            if i in refuted:
                viol.append((o, refuted[i], 'evaluation')); continue
        if not viol:
            for i, (o, f) in enumerate(goals):
                g = relevant(f, o.own)
                r = smt.solve_shared(g, solver_ms)
                if r.status != 'unsat' and g is not f:
                    r = smt.solve(f, solver_ms)
                oc.solver_time += r.time
                if r.status == 'unsat':
                    oc.backends[r.backend] = oc.backends.get(r.backend, 0) + 1
                elif r.status == 'sat' and r.precise:
                    viol.append((o, r.model, r.backend)); break
                else:
                    # more concrete search before giving up
                    hit = None
                    if r.model:
                        def menv(v, m=r.model):
                            return m[v] if v in m else 0
                        try:
                            if T.evaluate([f], menv)[0]: hit = dict(r.model)
                        except Exception: pass
                    tries = 0
                    while hit is None and tries < 300:
                        tries += 1
                        e, vals = sampler.sample()
                        if T.evaluate([f], e)[0]: hit = dict(vals)
                    if hit is not None: viol.append((o, hit, 'evaluation')); break
                    oc.undecided.append('%s: %s (%s)' % (o.kind, o.desc, r.status))
                    if os.environ.get('VC_DEBUG'): print('UNDECIDED', c.name, o.desc, f, flush=True)
        for o, model, how in viol[:3]:
            oc.violations.append(report_violation(c, cfg, env, o, model, how, replay_dir, prop, terms[0]))
        if viol: oc.status = 'violated'
        elif oc.undecided: oc.status = 'undecided'
    except Timeout:
        oc.status = 'undecided'; oc.undecided.append('time limit')
    except (X.Unsupported, ir.IRError, RecursionError, KeyError, IndexError, AssertionError, z3.Z3Exception, MemoryError) as e:
        oc.status = 'error'; oc.error = '%s: %s' % (type(e).__name__, e)
    if oc.status in ('undecided', 'error'):
        # the proof did not go through: look for a failing input of the real code
        v = None
        try: v = native_search(c, cfg, env, pre, seed, replay_dir, prop)
        except Timeout: pass
        except Exception as e: oc.undecided.append('native search failed: %r' % (e,))
        if v: oc.violations.append(v); oc.status = 'violated'
        else:
            oc.violations.append(report_undecided(c, cfg, oc, replay_dir, prop)); 
    oc.time = time.time() - t0
    return oc

SEARCHES = None     # shared budget of native searches (set by main)
def native_search(c, cfg, env, pre, seed, replay_dir, prop, n=60):
    import build
    if env is None or not c.opts.get('native', True) or not replay_dir: return None
    if SEARCHES is not None:
        with SEARCHES.get_lock():
            if SEARCHES.value <= 0: return None
            SEARCHES.value -= 1
    if pre is None: pre = conj(*c.pre(env)) if c.pre else TRUE
    sampler = Sampler(env.kinds, seed * 31 + 5, c.opts.get('hints') and c.opts['hints'](env))
    so = build.native_so(c, cfg, build.workdir())
    if so is None: return None
    jobs = []; meta = []; tries = 0
    while len(jobs) < n and tries < 20 * n:
        tries += 1
        e, vals = sampler.sample()
        if pre is not TRUE and not T.evaluate([pre], e)[0]: continue
        for p in c.params:
            for t in (env.ini[p.name] if isinstance(env.ini[p.name], list) else [env.ini[p.name]]): e(t)
        j = concrete_job(c, env, vals, c.name, so, ('end', 'start')[len(jobs) % 2])
        if j is None: return None
        jobs.append(j[0]); meta.append(vals)
    for i, r in native_batch(jobs):
        fails = native_fails(c, env, meta[i], r, jobs[i])
        if fails:
            o = X.Obligation('post', 'undischarged; fails on a concrete execution: ' + '; '.join(fails[:3]), TRUE, FALSE, c.name)
            return report_violation(c, cfg, env, o, meta[i], 'native search', replay_dir, prop, TRUE)
    return None
def native_batch(jobs):
    import build
    jp = os.path.join(build.workdir(), 'batch_%d_%d.json' % (os.getpid(), random.getrandbits(30)))
    with open(jp, 'w') as f: json.dump(jobs, f)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'native.py'), jp], capture_output=True, text=True, timeout=300)
    os.unlink(jp)
    for a, b in re.findall(r'^RESULT (\d+) (.*)$', p.stdout, re.M): yield int(a), json.loads(b)
def must_stop(c, env, model):
    """whether the contract says that this call ends in an exception or abort() (which ends a native run by SIGABRT); None: cannot tell"""
    for cond in (c.throws, c.aborts):
        if not cond: continue
        try:
            e = Env(); e.objs = env.objs; e.kinds = env.kinds; e.x = env.x; e.ex = env.ex; e.events = []; e.st = env.st; e.ini = env.ini
            if T.evaluate([cond(e)], lambda v: model.get(v, 0))[0]: return True
        except Exception: return None
    return False
def native_fails(c, env, model, r, job):
    """contract violations visible in one native run"""
    if 'error' in r: return []
    stops = must_stop(c, env, model)
    if 'signal' in r:
        if stops is None or stops and r['signal'] == 6: return []
        return ['terminated by signal %d' % r['signal']]
    if stops is None: return []
    if stops: return ['returns although it must not']
    e, bad = const_env(c, env, model, r)
    fails = list(bad) if bad else []
    if e is not None and c.post:
        try:
            for d, g in norm_post(c.post(e)):
                if g is FALSE: fails.append(d)
                elif g is not TRUE and not T.evaluate([g], lambda v: e.model[v] if v in e.model else model.get(v, 0 if v.w != 'A' else (lambda o: 0)))[0]: fails.append(d)
        except (T.Unevaluable, AttributeError, KeyError): pass
    for p in c.params:
        if p.is_ptr and p.mode == 'in':
            jb = [q for q in job['params'] if q.get('name') == p.name][0]
            if jb['data'] != r[p.name]: fails.append('%s was modified' % p.name)
    return fails
def report_undecided(c, cfg, oc, replay_dir, prop):
    rep = {'property': prop, 'contract': c.name, 'config': cfg.name, 'operation': c.api, 'failed_obligations': oc.undecided, 'verifier_output': oc.error,
           'note': 'the verifier did not discharge these obligations and gives no counterexample', 'source': c.source()}
    path = '-'
    if replay_dir:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.%s.json' % (c.name, cfg.name))
        with open(path, 'w') as f: json.dump(rep, f, indent=1, default=str)
    return {'path': path, 'confirmed': False, 'kind': 'undischarged', 'desc': (oc.undecided or [oc.error or ''])[0][:300], 'inputs': {}, 'contract': c.name, 'config': cfg.name}

def val_str(kind, bits, v):
    if kind == 'f': return repr(T.bits2f(v, bits)) + ' (0x%x)' % v
    if kind == 's': return str(T.sgn(v, bits))
    return str(v)

def concrete_job(c, env, model, fn, so, mode='end'):
    """native job description of a model"""
    ps = []
    ini = {}
    for p in c.params:
        if not p.is_ptr:
            v = model.get(env.ini[p.name], 0)
            ps.append({'kind': 'val', 'w': 1 if (p.kind == 'b' or p.bits == 1) else p.bits, 'f': p.kind == 'f', 'v': v})
            ini[p.name] = v
            continue
        if p.kind == 'array':
            o = env.objs[p.name]
            size = o.size if isinstance(o.size, int) else T.evaluate([o.size], lambda v: model.get(v, 0))[0]
            if size > (1 << 24): return None
            f = model.get(env.ini[p.name], lambda q: 0)
            data = bytes((f(i) if callable(f) else 0) & 255 for i in range(size))
            off = 0
            if p.off is not None:
                ot = p.off(env) if callable(p.off) else const(p.off, 64)
                off = T.evaluate([ot], lambda v: model.get(v, 0))[0]
            base = model.get(o.base)
            mis = (base % 64) if base is not None else 0
            ps.append({'kind': 'buf', 'name': p.name, 'data': data.hex(), 'align': p.align, 'off': off, 'mis': mis})
            ini[p.name] = data.hex()
            continue
        data = bytearray(p.size)
        if p.mode == 'out':
            for i in range(p.size): data[i] = 0xA5
        vals = []
        for i, (off, bits, kind, label) in enumerate(p.fields):
            if p.mode == 'out':
                continue
            v = model.get(env.ini[p.name][i], 0)
            vals.append(v)
            raw = v if kind not in ('m',) else ((1 << bits) - 1 if v else 0)
            data[off:off + bits // 8] = raw.to_bytes(bits // 8, 'little')
        ini[p.name] = vals
        base = model.get(env.objs[p.name].base)
        ps.append({'kind': 'buf', 'name': p.name, 'data': bytes(data).hex(), 'align': p.align, 'off': p.off, 'mis': (base % 64 // p.align * p.align) if base is not None else 0})
    job = {'so': so, 'fn': fn, 'params': ps, 'mode': mode, 'ret': None if not c.ret else {'w': 1 if c.ret.kind == 'b' else c.ret.bits, 'f': c.ret.kind == 'f'}}
    return job, ini

def const_env(c, env, model, result):
    """environment of constants: inputs from the model, outputs from the native run"""
    e = Env(); e.objs = env.objs; e.kinds = env.kinds; e.x = env.x; e.ex = env.ex; e.events = []; e.st = env.st; e.model = {}
    bad = []
    for p in c.params:
        if not p.is_ptr:
            t = env.ini[p.name]
            e.ini[p.name] = const(model.get(t, 0), t.w); continue
        if p.kind == 'array':
            e.ini[p.name] = env.ini[p.name]
            v = e.out[p.name] = T.arrvar('out:' + p.name)
            e.model[v] = lambda o, raw=bytes.fromhex(result[p.name]): raw[o] if 0 <= o < len(raw) else 0
            continue
        e.ini[p.name] = [const(model.get(t, 0), t.w) for t in env.ini[p.name]]
        raw = bytes.fromhex(result[p.name])
        vals = []
        for off, bits, kind, label in p.fields:
            v, g = kind_out(kind, bits, const(int.from_bytes(raw[off:off+bits//8], 'little'), bits))
            vals.append(v)
            if g is not TRUE: bad.append('%s is not well formed' % label)
        e.out[p.name] = vals
    if c.ret: e.ret = const(result['ret'], 1 if c.ret.kind == 'b' else c.ret.bits)
    return e, bad

def run_native(c, cfg, env, model, workdir, mode='end'):
    import build
    so = build.native_so(c, cfg, workdir)
    if so is None: return {'status': 'not built'}
    j = concrete_job(c, env, model, c.name, so, mode)
    if j is None: return {'status': 'not concretisable'}
    job, ini = j
    jp = os.path.join(workdir, 'job_%d_%s.json' % (os.getpid(), hashlib.md5(c.name.encode()).hexdigest()[:8]))
    with open(jp, 'w') as f: json.dump(job, f)
    try:
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'native.py'), jp], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired: return {'status': 'hang', 'ini': ini}
    m = re.search(r'^RESULT (.*)$', p.stdout, re.M)
    if not m:
        return {'status': 'crash', 'signal': -p.returncode, 'ini': ini, 'stderr': p.stderr[-500:], 'job': job}
    return {'status': 'ok', 'result': json.loads(m.group(1)), 'ini': ini, 'job': job}

def report_violation(c, cfg, env, o, model, how, replay_dir, prop, pre):
    """replays the counterexample natively and writes the replay file"""
    import build
    rep = {'property': prop, 'contract': c.name, 'config': cfg.name, 'operation': c.api,
           'obligation': {'kind': o.kind, 'what': o.desc, 'in_function': demangle([o.where])[0] if o.where else ''},
           'found_by': how}
    inputs = {}
    for p in c.params:
        if not p.is_ptr: inputs[p.name] = val_str(p.kind, p.bits, model.get(env.ini[p.name], 0))
        elif p.kind == 'array': inputs[p.name] = 'memory'
        elif p.mode != 'out': inputs[p.name] = [val_str(k, b, model.get(t, 0)) for (off, b, k, l), t in zip(p.fields, env.ini[p.name])]
    rep['inputs'] = inputs
    confirmed = False
    if c.opts.get('native', True) and replay_dir:
        for mode in ('end', 'start'):
            try: r = run_native(c, cfg, env, model, build.workdir(), mode)
            except Exception as e: rep['replay_error'] = str(e); break
            rep['native_%s' % mode] = {k: v for k, v in r.items() if k != 'job'}
            if 'job' in r: rep['job'] = r['job']
            if r['status'] == 'hang' or r['status'] == 'crash' and native_fails(c, env, model, {'signal': r['signal']}, r['job']): confirmed = True; break
            if r['status'] == 'ok':
                try:
                    fails = native_fails(c, env, model, r['result'], r['job'])
                    if fails:
                        confirmed = True
                        rep['failed_postconditions'] = fails[:20]
                        break
                except Exception as e: rep['replay_error'] = repr(e)
    if not confirmed and how != 'native search' and c.opts.get('native', True) and replay_dir:
        # the verifier's counterexample does not fail when run (or cannot be run): look for another one
        try: v = native_search(c, cfg, env, None, 1, replay_dir, prop)
        except Exception as e: v = None; rep['search_error'] = repr(e)
        if v: v['kind'] = o.kind; v['desc'] = o.desc; return v
    rep['confirmed_natively'] = confirmed
    rep['source'] = c.source()
    if replay_dir:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.%s.json' % (c.name, cfg.name))
        with open(path, 'w') as f: json.dump(rep, f, indent=1, default=str)
    else: path = '-'
    return {'path': path, 'confirmed': confirmed, 'kind': o.kind, 'desc': o.desc, 'inputs': inputs, 'contract': c.name, 'config': cfg.name}

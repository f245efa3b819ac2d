"""Differential test of the engine: the symbolic result of a wrapper, evaluated on sampled inputs, must equal
what the g++-compiled code computes on them.  Tests the translation and the intrinsic semantics."""
import os, json, sys, subprocess, re, time, hashlib
import term as T, exec as X, contract as C, ir, build
from term import TRUE, FALSE, conj
def run(c, mods, cfg, seed, so, n=24):
    oc = C.Outcome(c.name); t0 = time.time()
    try:
        ex = X.Executor(mods, externals=c.opts.get('externals'))
        ex.asm_hooks = c.opts.get('asm', {}); ex.static_init = c.opts.get('static_init', False)
        ex.global_init = c.opts.get('globals', {})
        if 'max_unroll' in c.opts: ex.max_unroll = c.opts['max_unroll']
        if 'selftest' in c.opts and not c.opts['selftest']: oc.status = 'skipped'; return oc
        if 'loop_handlers' in c.opts or 'contracts' in c.opts or 'externals' in c.opts: oc.status = 'skipped'; return oc
        st = X.State({}, TRUE)
        args, env, objs = C.build_env(c, ex, st)
        env.ex = ex; env.st = st
        if c.setup: c.setup(ex, st, env)
        pre = conj(*c.pre(env)) if c.pre else TRUE
        env.pre = pre
        if c.opts.get('ctors'): st = ex.run_ctors(st)
        st2, ret = ex.run(c.name, args, st)
        if st2 is None: oc.status = 'skipped'; return oc
        outs = []   # (name, off, kind, term)
        for p in c.params:
            if not p.is_ptr or p.mode == 'in': continue
            if p.kind == 'array': oc.status = 'skipped'; return oc
            os_ = st2.mem[objs[p.name].id]
            for off, bits, kind, label in p.fields:
                outs.append((p.name, off, bits, kind, ex.load_bytes(st2, objs[p.name], os_, off, bits // 8)))
        rt = None
        if c.ret: 
            rt = ret
            if c.ret.kind == 'b' and ret.w == 8: rt = T.extract(ret, 0, 0)
            elif ret.w != c.ret.bits and c.ret.kind != 'b': rt = T.trunc(ret, c.ret.bits)
        sampler = C.Sampler(env.kinds, seed * 7 + int(hashlib.md5(c.name.encode()).hexdigest()[:6], 16), c.opts.get('hints') and c.opts['hints'](env))
        jobs = []; exps = []; tries = 0
        terms = [o[4] for o in outs] + ([rt] if rt is not None else [])
        free = [set(v for v in T.free_vars(t) if str(v.k).startswith(('uninit', 'poison', 'undef', 'dead', 'fresh', 'const?'))) for t in terms]
        while len(jobs) < n and tries < n * 30:
            tries += 1
            e, vals = sampler.sample()
            if pre is not TRUE and not T.evaluate([pre], e)[0]: continue
            for p in c.params: 
                for t in (env.ini[p.name] if isinstance(env.ini[p.name], list) else [env.ini[p.name]]):
                    if t.w != 'A': e(t)
            # 'old:' contents of out parameters are 0xA5 natively
            def e2(v):
                if str(v.k).startswith('old:'): return int.from_bytes(b'\xa5' * (v.w // 8), 'little')
                return e(v)
            try: r = T.evaluate(terms, e2)
            except T.Unevaluable: oc.status = 'skipped'; return oc
            j = C.concrete_job(c, env, vals, c.name, so)
            if j is None: continue
            jobs.append(j[0]); exps.append((r, j[1]))
        if not jobs: oc.status = 'skipped'; return oc
        jp = os.path.join(build.workdir(), 'st_%s_%s.json' % (c.name, cfg.name))
        json.dump(jobs, open(jp, 'w'))
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'native.py'), jp], capture_output=True, text=True, timeout=200)
        os.unlink(jp)
        res = {int(a): json.loads(b) for a, b in re.findall(r'^RESULT (\d+) (.*)$', p.stdout, re.M)}
        bad = []
        for i, (r, ini) in enumerate(exps):
            o = res.get(i)
            if o is None or 'signal' in o or 'error' in o: bad.append('sample %d: %s inputs %s' % (i, o, ini)); continue
            for k, (name, off, bits, kind, t) in enumerate(outs):
                if free[k]: continue
                got = int.from_bytes(bytes.fromhex(o[name])[off:off + bits // 8], 'little')
                if got != r[k] and not (bits in T.FMT and kind == 'f' and T.b_isnan(got, bits) and T.b_isnan(r[k], bits)):
                    bad.append('%s+%d: native 0x%x engine 0x%x inputs %s' % (name, off, got, r[k], str(ini)[:300])); break
            if rt is not None and not free[-1]:
                got = o['ret']
                w = rt.w
                if got != r[-1] and not (w in T.FMT and c.ret.kind == 'f' and T.b_isnan(got, w) and T.b_isnan(r[-1], w)):
                    bad.append('return: native 0x%x engine 0x%x inputs %s' % (got, r[-1], str(ini)[:300]))
        oc.obligations = len(jobs)
        if bad: oc.status = 'error'; oc.error = '; '.join(bad[:2])
    except (X.Unsupported, ir.IRError) as e:
        oc.status = 'error'; oc.error = '%s: %s' % (type(e).__name__, e)
    oc.time = time.time() - t0
    return oc

"""C15: exactly specified math functions, on every bit pattern."""
from vclib import *

def fields(x):
    eb, s = T.FMT[x.w]
    return T.extract(x, x.w - 2, s - 1), T.extract(x, s - 2, 0)
def bias(w): return (1 << (T.FMT[w][0] - 1)) - 1
def is_normal(x):
    e, m = fields(x)
    return conj(bnot(eq(e, const(0, e.w))), bnot(eq(e, const(-1, e.w))))
def is_zero(x): return eq(T.extract(x, x.w - 2, 0), const(0, x.w - 1))
def is_finite(x):
    e, m = fields(x)
    return bnot(eq(e, const(-1, e.w)))
def is_denormal(x):
    e, m = fields(x)
    return conj(eq(e, const(0, e.w)), bnot(eq(m, const(0, m.w))))

ROUND = {'trunc': 'rtz', 'floor': 'rdn', 'ceil': 'rup', 'round': 'rne'}
def copysign(m, s): return T.concat(T.msb(s), T.extract(m, m.w - 2, 0))
def frexp_normal(x):
    """fraction and exponent of a normal number or zero"""
    e, m = fields(x); w = x.w
    f = T.concat(T.msb(x), const(bias(w) - 1, e.w), m)
    n = T.sub(T.zext(e, 32), const(bias(w) - 1, 32))
    return ite(is_zero(x), x, f), ite(is_zero(x), const(0, 32), n)
def frexp_denormal(x):
    e, m = fields(x); w = x.w
    z = T.ctlz(m, const(m.w, m.w))                                # leading zeros of the stored fraction
    f = T.concat(T.msb(x), const(bias(w) - 1, e.w), T.shl(m, T.add(z, const(1, m.w))))
    n = T.sub(const(-bias(w) + 1, 32), T.trunc(z, 32) if z.w > 32 else T.zext(z, 32))
    return f, n
def ldexp_normal(x, n):
    """(defined, value): argument and result are normal numbers, or the argument is zero, infinite or NaN"""
    e, m = fields(x); w = x.w
    r = T.add(T.zext(e, 34), T.sext(n, 34))
    ok = conj(is_normal(x), T.slt(const(0, 34), r), T.slt(r, const((1 << e.w) - 1, 34)))
    special = disj(is_zero(x), bnot(is_finite(x)))
    return disj(ok, special), ite(special, x, T.concat(T.msb(x), T.trunc(r, e.w), m))
def minmax(op, t, a, b):
    if t.isf: lt = T.flt
    else: lt = T.slt if t.signed else T.ult
    return ite(lt(b, a), b, a) if op == 'min' else ite(lt(a, b), b, a)
def fma_ok(t, o, a, b, c, fused):
    exact = fsame(o, T.ffma(a, b, c))
    if t.bits == 64 or fused: return exact
    # the product of two floats is exact in double
    d = [T.fcvt(x, 64) for x in (a, b, c)]
    return disj(exact, fsame(o, T.fcvt(T.fadd(T.fmul(d[0], d[1]), d[2]), 32)), fsame(o, T.fcvt(T.ffma(*d), 32)))

def math(tag, t, n, ap, call, mk, fused, simdarray=False):
    """ap(name): input parameter; out parameter; mk: builds contracts from body with a, b, c -> r"""
    if t.isf:
        for f, mode in ROUND.items():
            yield mk('%s_%s' % (tag, f), 'a', f + '(a)', post=lambda e, f=f, mode=mode: ew(f, e.out['r'], [T.fround(a, mode) for a in e['a']], fsame))
        yield mk(tag + '_sqrt', 'a', 'sqrt(a)', post=lambda e: ew('sqrt', e.out['r'], [T.fsqrt(a) for a in e['a']], fsame))
        yield mk(tag + '_copysign', 'ab', 'copysign(a, b)', post=lambda e: ew('copysign', e.out['r'], [copysign(a, b) for a, b in zip(e['a'], e['b'])]))
        yield mk(tag + '_exponent', 'a', 'exponent(a)', pre=lambda e: [conj(is_normal(a), bnot(T.msb(a))) for a in e['a']],
                 post=lambda e: ew('exponent', e.out['r'], [T.sitofp(T.sub(T.zext(fields(a)[0], 32), const(bias(t.bits), 32)), t.bits) for a in e['a']]))
    if t.isf or t.signed:
        if t.isf: ab = T.fabs
        else: ab = lambda a: ite(T.msb(a), T.neg(a), a)
        pre = (lambda e: [bnot(eq(a, const(1 << 31, 32))) for a in e['a']]) if t.name == 'int' else None
        yield mk(tag + '_abs', 'a', 'abs(a)', pre=pre, post=lambda e: ew('abs', e.out['r'], [ab(a) for a in e['a']]))
    for op in ('min', 'max'):
        pre = (lambda e: [bnot(T.fnan(x)) for x in e['a'] + e['b']]) if t.isf else None
        yield mk('%s_%s' % (tag, op), 'ab', op + '(a, b)', pre=pre,
                 post=lambda e, op=op: ew(op, e.out['r'], [minmax(op, t, a, b) for a, b in zip(e['a'], e['b'])], T.feq if t.isf else eq))
    if t.isf:
        if t.bits == 32 or fused:
            yield mk(tag + '_fma', 'abc', 'fma(a, b, c)', post=lambda e: [('fma, lane %d' % i, fma_ok(t, o, a, b, c, fused)) for i, (o, a, b, c) in enumerate(zip(e.out['r'], e['a'], e['b'], e['c']))])
    else:
        yield mk(tag + '_fma', 'abc', 'fma(a, b, c)', post=lambda e: ew('fma', e.out['r'], [T.add(T.mul(a, b), c) for a, b, c in zip(e['a'], e['b'], e['c'])]))
    if t.isf:
        I = lambda name, mode: P(name, 'const int *' if mode == 'in' else 'int *', 's', 32, n, mode, align=4)
        def frexp(kind, spec, pre, exp=True):
            def post(e):
                g = []
                for i, (x, o, k) in enumerate(zip(e['a'], e.out['r'], e.out['x'])):
                    f, m = spec(x)
                    g.append(('fraction, lane %d' % i, fsame(o, f)))
                    if exp: g.append(('exponent, lane %d' % i, eq(k, m)))
                return g
            return mk(tag + '_frexp' + kind, 'a', 'frexp(a, &x)', extra=[I('x', 'out')], pre=lambda e: [pre(x) for x in e['a']], post=post, exps='out')
        yield frexp('', frexp_normal, lambda x: disj(is_normal(x), is_zero(x)))
        yield frexp('_denormal', lambda x: [ite(is_denormal(x), p, q) for p, q in zip(frexp_denormal(x), frexp_normal(x))], is_finite)
        # lanes do not influence each other: a special value in one lane, a normal one elsewhere
        def post(e):
            g = []
            for i, (x, o, k) in enumerate(zip(e['a'], e.out['r'], e.out['x'])):
                f, m = frexp_normal(x); ok = disj(is_normal(x), is_zero(x))
                g.append(('fraction, lane %d' % i, disj(is_denormal(x), fsame(o, ite(ok, f, x)))))
                g.append(('exponent, lane %d' % i, disj(bnot(ok), eq(k, m))))
            return g
        yield mk(tag + '_frexp_special', 'a', 'frexp(a, &x)', extra=[I('x', 'out')], post=post, exps='out')
        yield mk(tag + '_ldexp', 'a', 'ldexp(a, x)', extra=[I('x', 'in')], exps='in',
                 post=lambda e: [('ldexp, lane %d' % i, (lambda p: disj(bnot(p[0]), fsame(o, p[1])))(ldexp_normal(a, x))) for i, (a, x, o) in enumerate(zip(e['a'], e['x'], e.out['r']))])

def ldexp_range(v):
    """arguments and results outside the normal range (recorded as known findings)"""
    t = v.ty; w = t.bits
    def post(kind):
        def f(e):
            g = []
            for i, (a, x, o) in enumerate(zip(e['a'], e['x'], e.out['r'])):
                ex, m = fields(a); r = T.add(T.zext(ex, 34), T.sext(x, 34)); s = T.msb(a)
                if kind == 'overflow': c, val = conj(is_normal(a), T.slt(const((1 << ex.w) - 2, 34), r)), T.concat(s, const(-1, ex.w), const(0, m.w))
                elif kind == 'underflow': c, val = conj(is_normal(a), T.slt(r, const(-m.w - 2, 34))), T.concat(s, const(0, w - 1))
                else: c, val = conj(is_denormal(a), eq(x, const(m.w, 32))), T.fmul(a, const(T.f2bits(2.0 ** m.w, w), w))
                g.append(('ldexp %s' % kind, disj(bnot(c), fsame(o, val))))
            return g
        return f
    for kind in ('overflow', 'underflow', 'denormal'):
        yield Contract('%s_ldexp_%s' % (v.tag, kind), [v.p('a'), P('x', 'const int *', 's', 32, v.n, 'in', align=4), v.p('r', 'out')],
                       'Vc::SimdArray<int, %d> e; e.load(x, Vc::Unaligned); *r = Vc::ldexp(*a, e);' % v.n, post=post(kind))

def noself(name):
    # libm's ldexp outside the normal range and frexp's exponent for infinities are left open here
    return {'selftest': False} if name.endswith(('_ldexp', '_frexp_special')) and not name.startswith(('sse', 'avx')) else {}
def vec_contracts(v, cfg):
    t = v.ty; n = v.n
    def mk(name, ins, expr, post, pre=None, extra=(), exps=None):
        import re
        ps = [v.p(x) for x in ins] + list(extra) + [v.p('r', 'out')]
        body = re.sub(r'\b([abc])\b', r'*\1', expr)
        if exps:
            pretype = '%s::IndexType e; ' % v.cxx if False else 'Vc::SimdArray<int, %d> e; ' % n
            if exps == 'in': pretype += 'e.load(x, Vc::Unaligned); '
            body = pretype + '*r = Vc::' + body.replace('&x', '&e').replace(', x)', ', e)') + ';'
            if exps == 'out': body += ' e.store(x, Vc::Unaligned);'
        else: body = '*r = Vc::' + body + ';'
        return Contract(name, ps, body, pre=pre, post=post, opts=noself(name))
    fused = v.abi == 'Avx' and cfg.startswith('avx2') or v.abi == 'Scalar'
    yield from math(v.tag, t, n, None, None, mk, fused)
    if t.isf and v.abi != 'Scalar': yield from ldexp_range(v)

def arr_contracts(ty, n, cfg):
    t = TY[ty]
    def mk(name, ins, expr, post, pre=None, extra=(), exps=None):
        ps = [P(x, 'const %s *' % t.cxx, t.kind, t.bits, n, 'in', align=t.bytes) for x in ins] + list(extra) + [P('r', '%s *' % t.cxx, t.kind, t.bits, n, 'out', align=t.bytes)]
        body = 'using A = Vc::SimdArray<%s, %d>; A r_;' % (t.cxx, n)
        for x in ins: body += ' A %s_; %s_.load(%s, Vc::Unaligned);' % (x, x, x)
        import re
        ex = re.sub(r'\b([abc])\b', r'\1_', expr)
        if exps:
            body += ' Vc::SimdArray<int, %d> e;' % n
            if exps == 'in': body += ' e.load(x, Vc::Unaligned);'
            ex = ex.replace('&x', '&e').replace(', x)', ', e)')
        body += ' r_ = Vc::%s; r_.store(r, Vc::Unaligned);' % ex
        if exps == 'out': body += ' e.store(x, Vc::Unaligned);'
        return Contract(name, ps, body, pre=pre, post=post, opts=noself(name))
    for c in math('array_%s_%d' % (ty, n), t, n, None, None, mk, False): yield c

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg): cs += vec_contracts(v, cfg)
    for ty in BASE:
        for n in ([3, 8] if tier == 'quick' else [1, 2, 3, 5, 8, 12]): cs += arr_contracts(ty, n, cfg)
    return uniq(cs)
def patient(cs):
    # the proofs about rounding doubles take long on a busy machine
    for c in cs:
        if 'double' in c.name: c.opts.setdefault('time_limit', 600)
        yield c
def groups(tier): return [Group(c, list(patient(contracts(c, tier))), links=[CONST]) for c in cfgs(tier)]

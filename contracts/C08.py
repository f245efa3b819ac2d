"""C08: reductions combine every selected lane exactly once."""
from vclib import *

def lt(t):
    if t.isf: return T.flt
    return T.slt if t.signed else T.ult
def nonan(t, xs, ks=None):
    if not t.isf: return []
    return [bnot(T.fnan(x)) if ks is None else disj(bnot(k), bnot(T.fnan(x))) for x, k in zip(xs, ks or xs)]
def veq(t): return T.feq if t.isf else eq
def contracts_for(v):
    t = v.ty; tg = v.tag; n = v.n
    C = lambda name, params, body, post, **kw: Contract(tg + '_' + name, params, body, post=post, **kw)
    ret = Ret(t.cxx, t.bits, t.kind)
    for name, op in (('sum', 'fadd'), ('product', 'fmul')):
        yield C(name, [v.p('a')], 'return a->%s();' % name, lambda e, op=op: [('combines each lane once', reduction(e.ret, e['a'], [TRUE] * n, op, t))], ret=ret)
        yield C('masked_' + name, [v.p('a'), v.m('m')], 'return a->%s(*m);' % name, lambda e, op=op: [('combines each selected lane once', reduction(e.ret, e['a'], e['m'], op, t))], ret=ret)
    for name in ('min', 'max'):
        less = (lambda a, b: lt(t)(a, b)) if name == 'min' else (lambda a, b: lt(t)(b, a))
        def post(e, less=less, masked=False):
            ks = e['m'] if masked else [TRUE] * n
            return [('is a selected lane', disj(*[conj(k, veq(t)(e.ret, x)) for k, x in zip(ks, e['a'])]))] + [
                    ('no selected lane is beyond it, lane %d' % i, disj(bnot(k), bnot(less(x, e.ret)))) for i, (k, x) in enumerate(zip(ks, e['a']))]
        yield C(name, [v.p('a')], 'return a->%s();' % name, post, ret=ret, pre=lambda e: nonan(t, e['a']))
        yield C('masked_' + name, [v.p('a'), v.m('m')], 'return a->%s(*m);' % name, lambda e, post=post: post(e, masked=True), ret=ret,
                pre=lambda e: nonan(t, e['a'], e['m']) + [disj(*e['m'])])
        if v.abi == 'Avx':
            def posti(e, less=less):
                r = e.out['r']; x = r[0]
                held = disj(*[veq(t)(x, y) for y in e['a']])
                idx = disj(*[conj(eq(e.ret, const(j, 32)), veq(t)(y, x)) for j, y in enumerate(e['a'])])
                if not t.isf and x.op != 'const':
                    # the index depends on the extreme only through its being held by some lane (proved first)
                    idx = T.subst([disj(bnot(held), idx)], {x: T.fresh('extreme', t.bits)})[0]
                return ([('lane %d is the broadcast extreme' % i, veq(t)(y, x)) for i, y in enumerate(r)] + [('some lane holds the extreme', held)]
                        + [('no lane is beyond it, %d' % j, bnot(less(y, x))) for j, y in enumerate(e['a'])] + [('the index refers to a lane with the extreme', idx)])
            yield C(name + 'Index', [v.p('a'), v.p('r', 'out')], 'auto x = a->%sIndex(); *r = x.first; return x.second;' % name, posti, ret=Ret('int', 32), pre=lambda e: nonan(t, e['a']))
    def ps(e):
        return [('lane %d is the sum of lanes 0..%d' % (i, i), reduction(o, e['a'][:i+1], [TRUE] * (i+1), 'fadd', t)) for i, o in enumerate(e.out['r'])]
    yield C('partialSum', [v.p('a'), v.p('r', 'out')], '*r = a->partialSum();', ps)

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg): cs += contracts_for(v)
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier), chunk=30) for c in cfgs(tier)]

"""C02: comparisons and floating-point classification, lane by lane, into well-formed masks."""
from vclib import *

def compares(v):
    t = v.ty
    for op, nm in CMP.items():
        yield Contract('%s_%s' % (v.tag, nm), [v.p('a'), v.p('b'), v.m('r', 'out')], '*r = *a %s *b;' % op,
                       post=lambda e, op=op: ew('a %s b' % op, e.out['r'], [scalar_cmp(op, t, a, b) for a, b in zip(e['a'], e['b'])]))
        S = V('s', t.cxx, t.bits, t.kind)
        yield Contract('%s_%s_vs' % (v.tag, nm), [v.p('a'), S, v.m('r', 'out')], '*r = *a %s s;' % op,
                       post=lambda e, op=op: ew('a %s s' % op, e.out['r'], [scalar_cmp(op, t, a, e['s']) for a in e['a']]))
        yield Contract('%s_%s_sv' % (v.tag, nm), [v.p('a'), S, v.m('r', 'out')], '*r = s %s *a;' % op,
                       post=lambda e, op=op: ew('s %s a' % op, e.out['r'], [scalar_cmp(op, t, e['s'], a) for a in e['a']]))
    if t.name in ('int', 'short'):
        u = v.with_ty('u' + t.name)
        for op, nm in CMP.items():
            yield Contract('%s_%s_mixed' % (v.tag, nm), [v.p('a'), u.p('b'), u.m('r', 'out')], '*r = *a %s *b;' % op,
                           post=lambda e, op=op: ew('signed %s unsigned' % op, e.out['r'], [scalar_cmp(op, u.ty, a, b) for a, b in zip(e['a'], e['b'])]))
    if t.isf:
        I = V('s', 'int', 32, 's')
        for op, nm in CMP.items():
            yield Contract('%s_%s_int' % (v.tag, nm), [v.p('a'), I, v.m('r', 'out')], '*r = *a %s s;' % op,
                           post=lambda e, op=op: ew('a %s int' % op, e.out['r'], [scalar_cmp(op, t, a, T.sitofp(e['s'], t.bits)) for a in e['a']]))
    # == and != of a vector with itself is not the identity for NaN
    yield Contract('%s_self_eq' % v.tag, [v.p('a'), v.m('r', 'out')], '*r = *a == *a;',
                   post=lambda e: ew('a == a', e.out['r'], [scalar_cmp('==', t, a, a) for a in e['a']]))
    # logical operators on vectors
    nz = lambda a: bnot(T.feq(a, const(0, t.bits))) if t.isf else bnot(eq(a, const(0, t.bits)))
    yield Contract('%s_land' % v.tag, [v.p('a'), v.p('b'), v.m('r', 'out')], '*r = *a && *b;',
                   post=lambda e: ew('a && b', e.out['r'], [conj(nz(a), nz(b)) for a, b in zip(e['a'], e['b'])]))
    yield Contract('%s_lor' % v.tag, [v.p('a'), v.p('b'), v.m('r', 'out')], '*r = *a || *b;',
                   post=lambda e: ew('a || b', e.out['r'], [disj(nz(a), nz(b)) for a, b in zip(e['a'], e['b'])]))

def classify(v):
    t = v.ty
    w = t.bits
    eb = T.FMT[w][0]
    exp = lambda a: T.extract(a, w - 2, w - 1 - eb)
    ones = const(-1, eb)
    man0 = lambda a: eq(T.extract(a, w - 2 - eb, 0), const(0, w - 1 - eb))
    F = {'isnan': lambda a: conj(eq(exp(a), ones), bnot(man0(a))), 'isinf': lambda a: conj(eq(exp(a), ones), man0(a)),
         'isfinite': lambda a: bnot(eq(exp(a), ones)), 'isnegative': lambda a: T.msb(a)}
    for nm, f in F.items():
        yield Contract('%s_%s' % (v.tag, nm), [v.p('a'), v.m('r', 'out')], '*r = Vc::%s(*a);' % nm,
                       post=lambda e, nm=nm, f=f: ew(nm, e.out['r'], [f(a) for a in e['a']]))
    yield Contract('%s_isNegative_member' % v.tag, [v.p('a'), v.m('r', 'out')], '*r = a->isNegative();',
                   post=lambda e: ew('isNegative', e.out['r'], [T.msb(a) for a in e['a']]))

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg):
        cs += compares(v)
        if v.ty.isf: cs += classify(v)
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

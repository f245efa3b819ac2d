"""C04: masked assignment changes exactly the active lanes."""
from vclib import *

OPS_F = ['+', '-', '*', '/']
OPS_I = OPS_F + ['%', '&', '|', '^', '<<', '>>']
def blend(m, new, old): return [ite(k, a, b) for k, a, b in zip(m, new, old)]

def contracts_for(v):
    t = v.ty; n = v.n; tg = v.tag; sf = same(v.kind)
    C = lambda name, params, body, post, **kw: Contract(tg + '_' + name, params, body, post=post, **kw)
    def lanes(e, new, what='a'):
        # inactive lanes are bit-identical; active ones equal up to the NaN payload
        r = []
        for i, (k, o, x, a) in enumerate(zip(e['m'], e.out['a'], new, e['a'])):
            r += [('active lane %d' % i, disj(bnot(k), sf(o, x))), ('inactive lane %d unchanged' % i, disj(k, eq(o, a)))]
        return r
    a = lambda: v.p('a', 'inout'); m = v.m('m'); b = v.p('b'); S = V('s', t.cxx, t.bits, t.kind)
    forms = (('call', '(*a)(*m)'), ('where', 'Vc::where(*m, *a)'), ('pipe', 'Vc::where(*m) | *a'), ('wcall', 'Vc::where(*m)(*a)'))
    for fn, lhs in forms:
        yield C('%s_set' % fn, [a(), m, b], '%s = *b;' % lhs, lambda e: lanes(e, e['b']))
        yield C('%s_sets' % fn, [a(), m, S], '%s = s;' % lhs, lambda e: lanes(e, [e['s']] * n))
        for op in (OPS_F if t.isf else OPS_I):
            # integer division is evaluated on all lanes before blending, so that it has to be defined there
            def pre(e, op=op, k='b'): return [g for x, y in zip(e['a'], e['b'] if k == 'b' else [e['s']] * n) for g in bin_pre(op, t, x, y)]
            yield C('%s_%s' % (fn, BIN[op]), [a(), m, b], '%s %s= *b;' % (lhs, op), lambda e, op=op: lanes(e, [scalar_bin(op, t, x, y) for x, y in zip(e['a'], e['b'])]), pre=pre)
            if op in '<<>>': continue
            yield C('%s_%s_s' % (fn, BIN[op]), [a(), m, S], '%s %s= s;' % (lhs, op), lambda e, op=op: lanes(e, [scalar_bin(op, t, x, e['s']) for x in e['a']]),
                    pre=lambda e, op=op: pre(e, op, 's'))
        one = const(T.f2bits(1.0, t.bits), t.bits) if t.isf else const(1, t.bits)
        inc = (lambda x: T.fadd(x, one)) if t.isf else (lambda x: T.add(x, one))
        dec = (lambda x: T.fsub(x, one)) if t.isf else (lambda x: T.sub(x, one))
        for nm, op, f in (('inc', '++', inc), ('dec', '--', dec)):
            yield C('%s_pre%s' % (fn, nm), [a(), m], '%s(%s);' % (op, lhs), lambda e, f=f: lanes(e, [f(x) for x in e['a']]))
            yield C('%s_post%s' % (fn, nm), [a(), m], '(%s)%s;' % (lhs, op), lambda e, f=f: lanes(e, [f(x) for x in e['a']]))
    for nm, op, f in (('inc', '++', inc), ('dec', '--', dec)):
        yield C('post%s_value' % nm, [a(), m, v.p('r', 'out')], '*r = (*a)(*m)%s;' % op, lambda e, f=f: lanes(e, [f(x) for x in e['a']]) + ew('old value', e.out['r'], e['a']))
    yield C('assign', [a(), b, m], 'a->assign(*b, *m);', lambda e: lanes(e, e['b']))
    z = const(0, t.bits)
    yield C('setZero', [v.p('a', 'out')], 'a->setZero();', lambda e: ew('zero', e.out['a'], [z] * n))
    yield C('setZero_mask', [a(), m], 'a->setZero(*m);', lambda e: lanes(e, [z] * n))
    yield C('setZeroInverted', [a(), m], 'a->setZeroInverted(*m);', lambda e: ew('lane', e.out['a'], blend(e['m'], e['a'], [z] * n)))
    if t.isf:
        yield C('setQnan', [v.p('a', 'out')], 'a->setQnan();', lambda e: [('lane %d is NaN' % i, T.fnan(x)) for i, x in enumerate(e.out['a'])])
        yield C('setQnan_mask', [a(), m], 'a->setQnan(*m);', lambda e: [('lane %d' % i, ite(k, T.fnan(o), eq(o, x))) for i, (k, o, x) in enumerate(zip(e['m'], e.out['a'], e['a']))])
    yield C('iif', [v.p('a'), b, m, v.p('r', 'out')], '*r = Vc::iif(*m, *a, *b);', lambda e: ew('lane', e.out['r'], blend(e['m'], e['a'], e['b'])))
    yield C('iif_bool', [v.p('a'), b, V('c', 'bool', 1, 'b'), v.p('r', 'out')], '*r = Vc::iif(c, *a, *b);', lambda e: ew('lane', e.out['r'], [ite(e['c'], x, y) for x, y in zip(e['a'], e['b'])]))
    yield C('iif_cmp', [v.p('a'), b, v.p('r', 'out')], '*r = Vc::iif(*a < *b, *a, *b);', lambda e: ew('lane', e.out['r'], [ite(scalar_cmp('<', t, x, y), x, y) for x, y in zip(e['a'], e['b'])]))
    if t.isf:
        yield C('where_setint', [a(), m, V('s', 'int', 32, 's')], 'Vc::where(*m, *a) = s;', lambda e: lanes(e, [T.sitofp(e['s'], t.bits)] * n))
    # aliasing: the right-hand side is the object itself
    yield C('self_add', [a(), m], '(*a)(*m) += *a;', lambda e: lanes(e, [scalar_bin('+', t, x, x) for x in e['a']]))
    yield C('cmp_mask', [a(), b], 'Vc::where(*a < *b) | *a = *b;', lambda e: ew('lane', e.out['a'], [ite(scalar_cmp('<', t, x, y), y, x) for x, y in zip(e['a'], e['b'])]))

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg): cs += contracts_for(v)
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

"""C03: Mask behaves as a vector of booleans."""
from vclib import *

def lt(i, n, w=64): return T.ult(i, const(n, w))
def sel(vals, i):
    """vals[i] for an in-range index term"""
    r = vals[-1]
    for k in reversed(range(len(vals) - 1)): r = ite(eq(i, const(k, i.w)), vals[k], r)
    return r
def popcount(vals, w=32):
    r = const(0, w)
    for x in vals: r = T.add(r, T.zext(x, w))
    return r

def contracts_for(v):
    n = v.n; M = v.mask; tg = v.tag
    B = lambda name, mode: P(name, 'const bool *' if mode == 'in' else 'bool *', 'b', 8, n, mode, align=1)
    m, k, r = v.m('m'), v.m('k'), v.m('r', 'out')
    ret_b = Ret('bool', 1, 'b'); ret_i = Ret('int', 32, 's')
    C = lambda name, params, body, post, **kw: Contract(tg + '_' + name, params, body, post=post, **kw)
    lanes = lambda f: (lambda e: ew('lane', e.out['r'], f(e)))
    yield C('load', [B('mem', 'in'), r], '*r = %s(mem);' % M, lanes(lambda e: e['mem']))
    yield C('load_member', [B('mem', 'in'), r], 'r->load(mem);', lanes(lambda e: e['mem']))
    yield C('load_flag', [B('mem', 'in'), r], '*r = %s(mem, Vc::Unaligned);' % M, lanes(lambda e: e['mem']))
    yield C('store', [m, B('mem', 'out')], 'm->store(mem);', lambda e: ew('element', e.out['mem'], e['m']))
    yield C('store_flag', [m, B('mem', 'out')], 'm->store(mem, Vc::Unaligned);', lambda e: ew('element', e.out['mem'], e['m']))
    yield C('roundtrip', [B('mem', 'in'), B('o', 'out')], '%s m(mem); m.store(o);' % M, lambda e: ew('element', e.out['o'], e['mem']))
    yield C('frombool', [V('b', 'bool', 1, 'b'), r], '*r = %s(b);' % M, lanes(lambda e: [e['b']] * n))
    yield C('zero', [r], '*r = %s(Vc::Zero);' % M, lanes(lambda e: [FALSE] * n))
    yield C('one', [r], '*r = %s(Vc::One);' % M, lanes(lambda e: [TRUE] * n))
    yield C('sZero', [r], '*r = %s::Zero();' % M, lanes(lambda e: [FALSE] * n))
    yield C('sOne', [r], '*r = %s::One();' % M, lanes(lambda e: [TRUE] * n))
    yield C('vzero', [r], '*r = %s{};' % M, lanes(lambda e: [FALSE] * n))
    for nm, op, f in (('and', '&', conj), ('or', '|', disj), ('xor', '^', T.bxor), ('land', '&&', conj), ('lor', '||', disj)):
        yield C(nm, [m, k, r], '*r = *m %s *k;' % op, lanes(lambda e, f=f: [f(a, b) for a, b in zip(e['m'], e['k'])]))
        if len(op) == 1:
            yield C(nm + '_assign', [v.m('m', 'inout'), k], '*m %s= *k;' % op, lambda e, f=f: ew('lane', e.out['m'], [f(a, b) for a, b in zip(e['m'], e['k'])]))
    yield C('not', [m, r], '*r = !*m;', lanes(lambda e: [bnot(a) for a in e['m']]))
    yield C('eq', [m, k], 'return *m == *k;', lambda e: [('m == k', eq(e.ret, conj(*[eq(a, b) for a, b in zip(e['m'], e['k'])])))], ret=ret_b)
    yield C('ne', [m, k], 'return *m != *k;', lambda e: [('m != k', eq(e.ret, bnot(conj(*[eq(a, b) for a, b in zip(e['m'], e['k'])]))))], ret=ret_b)
    Q = {'isFull': lambda x: conj(*x), 'isEmpty': lambda x: bnot(disj(*x)), 'isNotEmpty': lambda x: disj(*x), 'isMix': lambda x: conj(disj(*x), bnot(conj(*x)))}
    for q, f in Q.items():
        yield C(q, [m], 'return m->%s();' % q, lambda e, q=q, f=f: [(q, eq(e.ret, f(e['m'])))], ret=ret_b)
    F = {'all_of': 'isFull', 'any_of': 'isNotEmpty', 'none_of': 'isEmpty', 'some_of': 'isMix'}
    for q, g in F.items():
        yield C(q, [m], 'return Vc::%s(*m);' % q, lambda e, q=q, f=Q[g]: [(q, eq(e.ret, f(e['m'])))], ret=ret_b)
    yield C('count', [m], 'return m->count();', lambda e: [('count', eq(e.ret, popcount(e['m'])))], ret=ret_i)
    yield C('toInt', [m], 'return m->toInt();', lambda e: [('toInt', eq(e.ret, T.zext(T.concat(*reversed(e['m'])), 32) if n < 32 else T.concat(*reversed(e['m']))))], ret=ret_i)
    def first(e):
        x = const(n - 1, 32)
        for i in reversed(range(n - 1)): x = ite(e['m'][i], const(i, 32), x)
        return x
    yield C('firstOne', [m], 'return m->firstOne();', lambda e: [('firstOne', eq(e.ret, first(e)))], ret=ret_i, pre=lambda e: [disj(*e['m'])])
    I = V('i', 'unsigned long', 64, 'u')
    yield C('get', [m, I], 'return (*m)[i];', lambda e: [('m[i]', eq(e.ret, sel(e['m'], e['i'])))], ret=ret_b, pre=lambda e: [lt(e['i'], n)])
    yield C('get_ref', [v.m('m', 'inout'), I], 'return (*m)[i];', lambda e: [('m[i]', eq(e.ret, sel(e['m'], e['i'])))] + ew('unchanged', e.out['m'], e['m']), ret=ret_b, pre=lambda e: [lt(e['i'], n)])
    yield C('set', [v.m('m', 'inout'), I, V('b', 'bool', 1, 'b')], '(*m)[i] = b;',
            lambda e: ew('m[i] = b', e.out['m'], [ite(eq(e['i'], const(j, 64)), e['b'], x) for j, x in enumerate(e['m'])]), pre=lambda e: [lt(e['i'], n)])
    yield C('copy_elem', [v.m('m', 'inout'), I, V('j', 'unsigned long', 64, 'u')], '(*m)[i] = (*m)[j];',
            lambda e: ew('m[i] = m[j]', e.out['m'], [ite(eq(e['i'], const(j, 64)), sel(e['m'], e['j']), x) for j, x in enumerate(e['m'])]), pre=lambda e: [lt(e['i'], n), lt(e['j'], n)])
    yield C('shifted', [m, V('s', 'int', 32, 's'), r], '*r = m->shifted(s);',
            lanes(lambda e: [disj(*[conj(eq(e['s'], const(j - i, 32)), e['m'][j]) for j in range(n)]) for i in range(n)]), pre=lambda e: [T.ult(T.add(e['s'], const(1 << 26, 32)), const(1 << 27, 32))], opts={'hints': lambda env: {env['s']: lambda rng: rng.randint(-n - 2, n + 2)}})
    yield C('generate', [B('mem', 'in'), r], '*r = %s::generate([mem](int i) { return mem[i]; });' % M, lanes(lambda e: e['mem']))
    # conversions to masks with as many lanes
    for u in vecs_like(v):
        yield Contract('%s_to_%s' % (tg, u.tag), [m, u.m('r', 'out')], '*r = %s(*m);' % u.mask, post=lanes(lambda e: e['m']))
        if sorted((u.ty.name, v.ty.name)) not in (['int', 'uint'], ['short', 'ushort']): continue      # the others convert only explicitly
        yield Contract('%s_assign_%s' % (tg, u.tag), [m, u.m('r', 'out')], '%s t = *m; *r = t;' % u.mask, post=lanes(lambda e: e['m']))

def vecs_like(v):
    return [Vec(v.abi, t) for t in BASE if t != v.ty.name and (v.abi == 'Scalar' or TY[t].bits == v.ty.bits)]

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg):
        for c in contracts_for(v):
            if cfg == 'avx' and v.abi == 'Avx' and ('_to_' in c.name or '_assign_avx' in c.name): continue
            cs.append(c)
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

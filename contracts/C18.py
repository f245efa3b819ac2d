"""C18: iterating vectors, masks and the set lanes of a mask."""
from vclib import *

def lane_index(n):
    return V('i', 'int', 32, 's')
def inr(n): return lambda e: [T.ult(e['i'], const(n, 32))]
def hints(n): return {'hints': lambda e: {e['i']: lambda rng: rng.randrange(n)}}
def pick(vals, i):
    r = vals[-1]
    for k in reversed(range(len(vals) - 1)): r = ite(eq(i, const(k, i.w)), vals[k], r)
    return r

def vectors(tag, t, n, cxx, a_in, a_io, arr, pre='', load='', store=''):
    """pre/load/store: statements that bring a parameter into the object `v`"""
    C = lambda name, ps, body, post, **kw: Contract(tag + '_' + name, ps, body, post=post, **kw)
    I = lane_index(n); x = V('x', t.cxx, t.bits, t.kind)
    o, src = arr('o', 'out'), arr('src')
    ro = 'const %s v = *a; ' % cxx if not load else load.replace('V v;', 'V w;').replace('v.load', 'w.load') + ' const V &v = w; '
    rw = '%s &v = *a; ' % cxx if not load else load + ' '
    rd = lambda e: ew('visited in order', e.out['o'], e['a'])
    yield C('for_const', [a_in, o], ro + 'int k = 0; for (auto x : v) o[k++] = x;', rd)
    yield C('for_rw', [a_io, o], rw + 'int k = 0; for (auto &&x : v) o[k++] = x;', rd)
    yield C('for_cbegin', [a_in, o], ro + 'int k = 0; for (auto it = Vc::cbegin(v); it != Vc::cend(v); ++it) o[k++] = *it;', rd)
    yield C('for_postinc', [a_in, o], ro + 'int k = 0; for (auto it = Vc::begin(v); it < Vc::end(v); it++) o[k++] = *it;', rd)
    yield C('for_reverse', [a_in, o], ro + 'int k = %d; for (auto it = Vc::end(v); it != Vc::begin(v);) { --it; o[--k] = *it; }' % n, rd)
    yield C('for_write', [a_io, src], rw + 'int k = 0; for (auto it = Vc::begin(v); it != Vc::end(v); ++it) *it = src[k++];' + store, lambda e: ew('written in order', e.out['a'], e['src']))
    yield C('begin_end', [a_in], ro + 'return int(Vc::end(v) - Vc::begin(v));', lambda e: [('distance is the size', eq(e.ret, const(n, 32)))], ret=Ret('int', 32))
    g = [P('r', '%s *' % t.cxx, t.kind, t.bits, 1, 'out', align=t.bytes)]
    at = lambda e: [('element', eq(e.out['r'][0], pick(e['a'], e['i'])))]
    for nm, ex in (('plus', '*(Vc::begin(v) + i)'), ('plus_rev', '*(i + Vc::begin(v))'), ('minus', '*(Vc::end(v) - (%d - i))' % n), ('index', 'Vc::begin(v)[i]')):
        yield C('at_' + nm, [a_in, I] + g, ro + '*r = %s;' % ex, at, pre=inr(n), opts=hints(n))
    yield C('at_pluseq', [a_in, I] + g, ro + 'auto it = Vc::begin(v); it += i; *r = *it;', at, pre=inr(n), opts=hints(n))
    yield C('at_minuseq', [a_in, I] + g, ro + 'auto it = Vc::end(v); it -= %d - i; *r = *it;' % n, at, pre=inr(n), opts=hints(n))
    J = V('j', 'int', 32, 's')
    ij = lambda e: [T.ult(e['i'], const(n, 32)), T.ult(e['j'], const(n, 32)), T.ult(T.add(e['i'], e['j']), const(n, 32))]
    hj = {'hints': lambda e: {e['i']: lambda rng: rng.randrange(n), e['j']: lambda rng: rng.randrange(n)}}
    yield C('at_offset_index', [a_in, I, J] + g, ro + 'auto it = Vc::begin(v) + i; *r = it[j];', lambda e: [('element i + j', eq(e.out['r'][0], pick(e['a'], T.add(e['i'], e['j']))))], pre=ij, opts=hj)
    wr = lambda f: (lambda e: [('element %d' % k, eq(b, ite(eq(e['i'], const(k, 32)), f(y, e['x']), y))) for k, (b, y) in enumerate(zip(e.out['a'], e['a']))])
    yield C('write_at', [a_io, I, x], rw + '*(Vc::begin(v) + i) = x;' + store, wr(lambda y, z: z), pre=inr(n), opts=hints(n))
    if not t.isf:
        yield C('update_at', [a_io, I, x], rw + 'auto it = Vc::begin(v); it += i; *it += x;' + store, wr(T.add), pre=inr(n), opts=hints(n))

def masks(tag, n, m_in, m_io, barr, cxx, load='', store=''):
    C = lambda name, ps, body, post, **kw: Contract(tag + '_' + name, ps, body, post=post, **kw)
    ro = 'const %s k = *m; ' % cxx if not load else load.replace('M k(', 'M w(') + ' const M &k = w; '
    rw = '%s &k = *m; ' % cxx if not load else load + ' '
    yield C('mask_for', [m_in, barr('o', 'out')], ro + 'int i = 0; for (bool b : k) o[i++] = b;', lambda e: ew('visited in order', e.out['o'], e['m']))
    yield C('mask_for_write', [m_io, barr('src', 'in')], rw + 'int i = 0; for (auto it = Vc::begin(k); it != Vc::end(k); ++it) *it = src[i++];' + store, lambda e: ew('written in order', e.out['m'], e['src']))
    def post(e):
        g = []; cnt = const(0, 8)
        for i, b in enumerate(e['m']):
            cnt = T.add(cnt, T.zext(b, 8))
            g.append(('lane %d is visited iff set, after the set lanes before it' % i, eq(e.out['o'][i], ite(b, cnt, const(0, 8)))))
        g.append(('number of visits', eq(e.ret, T.zext(cnt, 32))))
        return g
    o = P('o', 'unsigned char *', 'u', 8, n, 'out', align=1)
    clear = 'for (int z = 0; z < %d; ++z) o[z] = 0; ' % n
    yield C('where_for', [m_in, o], ro + clear + 'int c = 0; for (size_t i : Vc::where(k)) o[i] = ++c; return c;', post, ret=Ret('int', 32))
    yield C('where_postinc', [m_in, o], ro + clear + 'int c = 0; const auto &w_ = Vc::where(k); const auto e = Vc::end(w_); for (auto it = Vc::begin(w_); it != e;) { auto jt = it++; o[*jt] = ++c; } return c;', post, ret=Ret('int', 32))

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg):
        cs += vectors(v.tag, v.ty, v.n, v.cxx, v.p('a'), v.p('a', 'inout'), v.arr)
        B = lambda name, mode, n=v.n: P(name, 'const bool *' if mode == 'in' else 'bool *', 'b', 8, n, mode, align=1)
        cs += masks(v.tag, v.n, v.m('m'), v.m('m', 'inout'), B, v.mask)
    for ty in BASE:
        for n in ([3, 9] if tier == 'quick' else [1, 2, 3, 5, 7, 9, 12, 16]):
            t = TY[ty]
            A = lambda name, mode='in', n=n, t=t: P(name, ('const %s *' if mode == 'in' else '%s *') % t.cxx, t.kind, t.bits, n, mode, align=t.bytes)
            cxx = 'Vc::SimdArray<%s, %d>' % (t.cxx, n)
            cs += vectors('array_%s_%d' % (ty, n), t, n, cxx, A('a'), A('a', 'inout'), A, load='using V = %s; V v; v.load(a, Vc::Unaligned);' % cxx, store=' v.store(a, Vc::Unaligned);')
            B = lambda name, mode='in', n=n: P(name, 'const bool *' if mode == 'in' else 'bool *', 'b', 8, n, mode, align=1)
            cs += masks('array_%s_%d' % (ty, n), n, B('m'), B('m', 'inout'), B, '', load='using M = Vc::SimdMaskArray<%s, %d>; M k(m);' % (t.cxx, n), store=' k.store(m);')
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier), links=[CONST]) for c in cfgs(tier)]

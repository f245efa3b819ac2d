"""C09: functions that move lanes around are the permutations they document."""
from vclib import *

def contracts_for(v):
    t = v.ty; tg = v.tag; n = v.n; Z = const(0, t.bits)
    C = lambda name, params, body, post, **kw: Contract(tg + '_' + name, params, body, post=post, **kw)
    amt = V('amount', 'int', 32)
    num = lambda k: const(T.f2bits(float(k), t.bits) if t.isf else k, t.bits)
    def sh(xs, fill, amount, i):
        """lane i of [.. fill .. xs .. fill ..] moved by amount"""
        r = Z
        for j in range(-n if fill else 0, 2 * n if fill else n):
            x = xs[j] if 0 <= j < n else fill[j % n]
            r = ite(eq(amount, const(j - i, 32)), x, r)
        return r
    yield C('shifted', [v.p('a'), amt, v.p('r', 'out')], '*r = a->shifted(amount);', lambda e: ew('shifted', e.out['r'], [sh(e['a'], None, e['amount'], i) for i in range(n)]),
            opts={'hints': lambda e: {e['amount']: lambda rng: rng.randint(-n - 2, n + 2)}})
    yield C('shifted_in', [v.p('a'), amt, v.p('s'), v.p('r', 'out')], '*r = a->shifted(amount, *s);', lambda e: ew('shifted', e.out['r'], [sh(e['a'], e['s'], e['amount'], i) for i in range(n)]),
            pre=lambda e: [bnot(T.slt(e['amount'], const(-n, 32))), bnot(T.slt(const(n, 32), e['amount']))], opts={'hints': lambda e: {e['amount']: lambda rng: rng.randint(-n, n)}})
    def rot(xs, amount, i):
        if n == 1: return xs[0]
        b = (n - 1).bit_length(); ix = T.extract(T.add(amount, const(i, 32)), b - 1, 0)
        r = xs[0]
        for j in range(1, n): r = ite(eq(ix, const(j, b)), xs[j], r)
        return r
    yield C('rotated', [v.p('a'), amt, v.p('r', 'out')], '*r = a->rotated(amount);', lambda e: ew('rotated', e.out['r'], [rot(e['a'], e['amount'], i) for i in range(n)]))
    yield C('reversed', [v.p('a'), v.p('r', 'out')], '*r = a->reversed();', lambda e: ew('reversed', e.out['r'], e['a'][::-1]))
    if v.abi == 'Avx': yield C('index_reversed', [v.p('a'), v.p('r', 'out')], '*r = (*a)[Vc::Permutation::Reversed];', lambda e: ew('reversed', e.out['r'], e['a'][::-1]))
    il = lambda e: [x for p in zip(e['a'], e['b']) for x in p]
    yield C('interleaveLow', [v.p('a'), v.p('b'), v.p('r', 'out')], '*r = a->interleaveLow(*b);', lambda e: ew('interleaved', e.out['r'], il(e)[:n]))
    yield C('interleaveHigh', [v.p('a'), v.p('b'), v.p('r', 'out')], '*r = a->interleaveHigh(*b);', lambda e: ew('interleaved', e.out['r'], il(e)[n:]))
    x = V('x', t.cxx, t.bits, t.kind)
    yield C('broadcast', [x, v.p('r', 'out')], '*r = %s(x);' % v.cxx, lambda e: ew('broadcast', e.out['r'], [e['x']] * n))
    yield C('assign_scalar', [x, v.p('r', 'out')], '*r = x;', lambda e: ew('broadcast', e.out['r'], [e['x']] * n))
    for nm, val in (('Zero', lambda i: num(0)), ('One', lambda i: num(1)), ('IndexesFromZero', num)):
        yield C(nm, [v.p('r', 'out')], '*r = %s::%s();' % (v.cxx, nm), lambda e, val=val: ew(nm, e.out['r'], [val(i) for i in range(n)]))
        yield C('ctor_' + nm, [v.p('r', 'out')], '*r = %s(Vc::%s);' % (v.cxx, nm), lambda e, val=val: ew(nm, e.out['r'], [val(i) for i in range(n)]))
    yield C('setZero', [v.p('r', 'inout')], 'r->setZero();', lambda e: ew('zero', e.out['r'], [num(0)] * n))
    yield C('setQnan', [v.p('r', 'inout')], 'r->setQnan();', lambda e: [('lane %d is NaN' % i, T.fnan(y)) for i, y in enumerate(e.out['r'])]) if t.isf else None
    ix = V('i', 'unsigned long', 64)
    ipre = lambda e: [T.ult(e['i'], const(n, 64))]
    ih = {'hints': lambda e: {e['i']: lambda rng: rng.randrange(n)}}
    def sel(xs, i):
        r = xs[0]
        for j in range(1, n): r = ite(eq(i, const(j, 64)), xs[j], r)
        return r
    yield C('element', [v.p('a'), ix], 'return (*a)[i];', lambda e: [('the element', eq(e.ret, sel(e['a'], e['i'])))], ret=Ret(t.cxx, t.bits, t.kind), pre=ipre, opts=ih)
    yield C('element_ref_read', [v.p('a', 'inout'), ix], 'return (*a)[i];', lambda e: [('the element', eq(e.ret, sel(e['a'], e['i'])))] + ew('unchanged', e.out['a'], e['a']), ret=Ret(t.cxx, t.bits, t.kind), pre=ipre, opts=ih)
    def wpost(f):
        def post(e):
            out = []
            for j, (o, y) in enumerate(zip(e.out['a'], e['a'])):
                here = eq(e['i'], const(j, 64))
                out += [('element %d written' % j, disj(bnot(here), same(t.kind)(o, f(y, e['x'])))), ('element %d unchanged' % j, disj(here, eq(o, y)))]
            return out
        return post
    yield C('element_write', [v.p('a', 'inout'), ix, x], '(*a)[i] = x;', wpost(lambda y, z: z), pre=ipre, opts=ih)
    for op in ['+', '-', '*'] + ([] if t.isf else ['&', '|', '^']):
        yield C('element_%s_assign' % BIN[op], [v.p('a', 'inout'), ix, x], '(*a)[i] %s= x;' % op, wpost(lambda y, z, op=op: scalar_bin(op, t, y, z)), pre=ipre, opts=ih)
    one = num(1)
    for nm, ex, f in (('preinc', '++(*a)[i]', '+'), ('postinc', '(*a)[i]++', '+'), ('predec', '--(*a)[i]', '-'), ('postdec', '(*a)[i]--', '-')):
        yield C('element_' + nm, [v.p('a', 'inout'), ix], ex + ';', (lambda f: lambda e: wpost(lambda y, z: scalar_bin(f, t, y, one))(Wrap(e)))(f), pre=ipre, opts=ih)
    src = v.arr('src')
    yield C('generate', [src, v.p('r', 'out')], '*r = %s::generate([&](int i) { return src[i]; });' % v.cxx, lambda e: ew('generated', e.out['r'], e['src']))
    yield C('generator_ctor', [src, v.p('r', 'out')], '*r = %s([&](int i) { return src[i]; });' % v.cxx, lambda e: ew('generated', e.out['r'], e['src']))
    yield C('generate_order', [v.p('r', 'out')], 'int n = 0; *r = %s::generate([&](int) { return static_cast<%s>(n++); });' % (v.cxx, t.cxx), lambda e: ew('called in order', e.out['r'], [num(i) for i in range(n)]))
    yield C('call', [v.p('a'), v.arr('o', 'out')], 'int n = 0; a->call([&](%s x) { o[n++] = x; });' % t.cxx, lambda e: ew('called with lane', e.out['o'], e['a']))
    # call: the k-th call gets the k-th active lane
    def cpost(e):
        out = []; cnt = [const(0, 32)]
        for k in e['m']: cnt.append(T.add(cnt[-1], T.zext(k, 32)))
        for i in range(n):
            x = e['o'][i]
            for j in range(n): x = ite(conj(e['m'][j], eq(cnt[j], const(i, 32))), e['a'][j], x)
            out.append(('argument of call %d' % i, eq(e.out['o'][i], x)))
        return out + [('number of calls', eq(e.ret, cnt[n]))]
    if n <= 8: yield C('call_masked', [v.p('a'), v.m('m'), v.arr('o', 'inout')], 'int n = 0; a->call([&](%s x) { o[n++] = x; }, *m); return n;' % t.cxx, cpost, ret=Ret('int', 32))
    # visits: with injective lanes the set of visited lanes is the mask
    def vpost(e): return [('lane %d visited iff active' % i, eq(e.out['o'][i], ite(k, const(1, 8), const(0, 8)))) for i, k in enumerate(e['m'])]
    yield C('call_masked_visits', [v.m('m'), v.arr('o', 'out', ty=TY['uchar'])], 'for (int k = 0; k < %d; ++k) o[k] = 0; %s::IndexesFromZero().call([&](%s x) { ++o[int(x)]; }, *m);' % (n, v.cxx, t.cxx), vpost)
    f = 'static_cast<%s>(x ^ 5)' % t.cxx if not t.isf else '-x'
    F = (lambda y: T.bxor(y, const(5, t.bits))) if not t.isf else T.fneg
    yield C('apply', [v.p('a'), v.p('r', 'out')], '*r = a->apply([](%s x) { return %s; });' % (t.cxx, f), lambda e: ew('applied', e.out['r'], [F(y) for y in e['a']]))
    def mpost(e):
        out = []
        for i, (k, o, y) in enumerate(zip(e['m'], e.out['r'], e['a'])):
            out += [('applied, lane %d' % i, disj(bnot(k), eq(o, F(y)))), ('not applied, lane %d' % i, disj(k, eq(o, y)))]
        return out
    yield C('apply_masked', [v.p('a'), v.m('m'), v.p('r', 'out')], '*r = a->apply([](%s x) { return %s; }, *m);' % (t.cxx, f), mpost)

class Wrap:
    """environment with a dummy right-hand side"""
    def __init__(self, e): self.e = e; self.out = e.out
    def __getitem__(self, k): return None if k == 'x' else self.e[k]

def contracts(cfg, tier):
    return uniq([c for v in vecs(cfg) for c in contracts_for(v) if c])
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

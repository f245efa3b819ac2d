"""C21: Random() stays in its documented range and steps the generator state."""
from vclib import *

PRE = '#include <Vc/Vc>\n#include <cstring>\n'
LCG = 0xdeece66d; LCG64 = 0x5deece66d
def C(k, w): return const(k, w)
def step32(x): return T.add(T.mul(x, C(LCG, 32)), C(11, 32))
def state(): return P('s', 'unsigned *', 'u', 32, 16, 'inout', align=4)
IN = 'std::memcpy(&Vc::Common::RandomState[0], s, 64); '
OUT = ' std::memcpy(s, &Vc::Common::RandomState[0], 64);'
def frac(bits, w):
    """the number 0.bits as a w-bit floating-point number: 1.bits - 1"""
    one = 0x3ff0000000000000 if w == 64 else 0x3f800000
    return T.fsub(T.bor(bits, C(one, w)), C(one, w))
def rng01(x):
    one = C(0x3ff0000000000000 if x.w == 64 else 0x3f800000, x.w)
    return disj(eq(x, C(0, x.w)), T.ult(T.sub(x, C(1, x.w)), T.sub(one, C(1, x.w))))     # bit patterns of positive numbers below 1 are those below 1.0
def stepped(e, n, dbl, scalar):
    o, s = e.out['s'], e['s']
    new = list(s)
    if dbl:
        first, count = {1: (8, 1), 2: (8, 2), 4: (0, 4)}[n]
        for k in range(count):
            i = first + 2 * k
            x = T.add(T.mul(T.concat(s[i + 1], s[i]), C(LCG64, 64)), C(11, 64))
            if scalar: x = T.band(x, C((1 << 52) - 1, 64))
            new[i] = T.extract(x, 31, 0); new[i + 1] = T.extract(x, 63, 32)
    else:
        for i in range(n):
            new[n + i] = step32(s[n + i])
            new[i] = T.bxor(step32(s[i]), T.lshr(s[n + i], C(16, 32)))
    for i in range(16): yield 'state word %d' % i, eq(o[i], new[i])
def contracts(cfg, tier):
    for v in vecs(cfg):
        t = v.ty; sc = v.abi == 'Scalar'
        n = 1 if sc else (v.bytes // 4)          # state words that are consumed
        if t.name == 'double': n = v.n
        def post(e, v=v, t=t, sc=sc, n=n):
            s = e['s']; r = e.out['r']
            yield from stepped(e, n, t.name == 'double', sc)
            if t.name == 'float':
                for i in range(v.n):
                    # the lowest 28 bits of the word, or all but its lowest two: in both cases the 23 bits that end up behind the point
                    b = T.extract(s[i], 22, 0) if sc else T.extract(s[i], 24, 2)
                    yield 'lane %d' % i, eq(r[i], frac(T.zext(b, 32), 32))
                    yield 'lane %d in [0, 1)' % i, rng01(r[i])
            elif t.name == 'double':
                first = 0 if v.n == 4 else 8
                for i in range(v.n):
                    x = T.concat(s[first + 2*i + 1], s[first + 2*i])
                    b = T.extract(T.add(T.mul(x, C(LCG64, 64)), C(11, 64)), 51, 0) if sc else T.extract(x, 63, 12)
                    yield 'lane %d' % i, eq(r[i], frac(T.zext(b, 64), 64))
                    yield 'lane %d in [0, 1)' % i, rng01(r[i])
            else:
                for i in range(v.n):
                    k = t.bits * i
                    yield 'lane %d' % i, eq(r[i], T.extract(s[k // 32], k % 32 + t.bits - 1, k % 32))
        yield Contract(v.tag + '_random', [state(), v.p('r', 'out')], IN + '*r = %s::Random();' % v.cxx + OUT, post=post)
    for ty, w in (('float', 32), ('double', 64), ('int', 32)):
        for n in (3, 4, 8, 12):
            def post(e, ty=ty):
                for i, x in enumerate(e.out['r']):
                    if ty != 'int': yield 'lane %d in [0, 1)' % i, rng01(x)
                yield 'result written', TRUE
            yield Contract('array_%s_%d_random' % (ty, n), [state(), P('r', '%s *' % ty, 'f' if ty != 'int' else 's', w, n, 'out', align=w // 8)],
                           IN + 'using A = Vc::SimdArray<%s, %d>; const A x = A::Random(); for (int i = 0; i < %d; ++i) r[i] = x[i];' % (ty, n, n) + OUT, post=post)
def groups(tier): return [Group(c, uniq(list(contracts(c, tier))), prelude=PRE, links=[CONST]) for c in cfgs(tier)]

"""C10: sorted() returns the lanes in non-descending order.

The result of a sorting network is a term over minima and maxima of the lanes.  For a threshold t the
map x -> [x >= t] is monotone and so commutes with min and max, hence the number of result lanes that
are >= t equals the number of input lanes that are >= t for every t, and the result is ordered, iff
the network sorts all vectors of truth values (0-1 principle).  image() computes the truth table of
the image of a result lane over ALL truth value vectors.  A decision that is no min/max but compares
two such terms is followed both ways wherever the truth values do not determine it."""
from vclib import *

import os
def cofactor(x, c, v):
    if x is c: return v
    if x.op == 'ite' and x.args[0] is c: return x.args[1] if v is TRUE else x.args[2]
    if x.w == 1 and x.op in ('band', 'bor'): return (conj if x.op == 'band' else disj)(*[cofactor(y, c, v) for y in x.args])
    if x.w == 1 and x.op == 'not': return bnot(cofactor(x.args[0], c, v))
    return x
class NoNet(Exception): pass
class Net:
    def __init__(self, t, leaves, choice):
        self.t = t; self.n = len(leaves); self.memo = {}; self.free = {}; self.choice = choice
        self.leaves = {x: i for i, x in enumerate(leaves)}; self.bits = len(leaves)      # number of variables of the table
        self.full = (1 << (1 << self.bits)) - 1
    def tvar(self, i):
        r = ((1 << (1 << i)) - 1) << (1 << i); w = 2 << i
        while w < (1 << self.bits): r |= r << w; w *= 2
        return r
    def img(self, x):
        """truth table of [x >= t]"""
        r = self.memo.get(x)
        if r is None: r = self.memo[x] = self._img(x)
        return r
    def _img(self, x):
        i = self.leaves.get(x)
        if i is not None: return self.tvar(i)
        if x.w > self.t.bits and x.op != 'ite':                # promoted
            y = T.extract(x, self.t.bits - 1, 0)
            if (T.sext if self.t.signed else T.zext)(y, x.w) is x: return self.img(y)
            if x.op == 'const': raise NoNet('constant %x' % x.k)
        if x.op == 'const':
            if x.k == self.top(): return self.full
            raise NoNet('constant %x' % x.k)
        if x.op == 'ite':
            c, p, q = x.args
            if c.op == 'not': c, p, q = c.args[0], q, p
            l = self.atom(c)
            if l and set(l) == {p, q}:
                a, b = self.img(p), self.img(q)
                return a & b if l[0] is p else a | b
            c = self.cond(c)
            return (c & self.img(p)) | (~c & self.full & self.img(q))
        if x.op == 'concat':
            # a negative number that is not less than the greatest one
            y = x.args[0]
            if y.w == 1 and y.op == 'band' and self.t.signed:
                for p in y.args:
                    if p.op == 'not' and p.args[0].op == 'slt' and p.args[0].args[1].op == 'const' and p.args[0].args[1].k == self.top() and T.msb(p.args[0].args[0]) in y.args:
                        return self.img(T.concat(const(0, 1), *x.args[1:]))
            # a selection that was split into pieces
            for y in x.args:
                if y.op != 'ite': continue
                c = y.args[0]
                z = ite(c, T.concat(*[cofactor(p, c, TRUE) for p in x.args]), T.concat(*[cofactor(p, c, FALSE) for p in x.args]))
                if z is not x and z.op == 'ite': return self.img(z)
        if os.environ.get('VC_DEBUG'): print('op', T.show(x, 6))
        raise NoNet('operation ' + x.op)
    def top(self):
        t = self.t
        return T.f2bits(float('inf'), t.bits) if t.isf else (1 << (t.bits - (1 if t.signed else 0))) - 1
    def atom(self, c):
        t = self.t
        if t.isf and c.op in ('flt', 'fle'): return c.args
        if not t.isf and (c.op == ('slt' if t.signed else 'ult') or c.op == 'slt' and c.args[0].w > t.bits): return c.args
    def cond(self, c):
        r = self.memo.get(('c', c))
        if r is None: r = self.memo['c', c] = self._cond(c)
        return r
    def _cond(self, c):
        if c.op == 'not': return ~self.cond(c.args[0]) & self.full
        if c.op in ('band', 'bor'):
            r = self.cond(c.args[0])
            for y in c.args[1:]: r = r & self.cond(y) if c.op == 'band' else r | self.cond(y)
            return r
        l = self.atom(c)
        if l:
            # a < b allows [a >= t] <= [b >= t]; its negation allows [a >= t] >= [b >= t]
            a, b = self.img(l[0]), self.img(l[1])
            k = self.free.setdefault(c, len(self.free))
            v = self.full if self.choice >> k & 1 else 0
            return (~a & b & self.full) | (~(a ^ b) & v & self.full)
        if os.environ.get('VC_DEBUG'): print('cond', T.show(c, 6))
        raise NoNet('condition ' + c.op)

def threshold(net, n):
    """tables of 'at least k of the inputs are 1', k = 0..n"""
    d = [net.full] + [0] * n
    for i in range(n):
        v = net.tvar(i)
        for k in range(n, 0, -1): d[k] |= d[k - 1] & v
    return d

def sorted_post(t, ins, outs):
    n = len(ins); G = []
    if all(o.op == 'const' for o in outs) and all(i.op == 'const' for i in ins):
        key = (lambda x: T.b_frac(x.k, t.bits) if not T.b_isinf(x.k, t.bits) else (float('-inf') if x.k >> (t.bits - 1) else float('inf'))) if t.isf else ((lambda x: T._sgn(x.k, t.bits)) if t.signed else (lambda x: x.k))
        exp = sorted(map(key, ins)); got = [key(o) for o in outs]
        return [('lane %d' % i, T.boolc(a == b)) for i, (a, b) in enumerate(zip(exp, got))]
    if len(set(ins)) != n: return [('lanes are distinct variables', FALSE)]
    runs = []; k = 0
    try:
        while True:
            net = Net(t, ins, k)
            runs.append([net.img(o) for o in outs])
            nf = len(net.free); k += 1
            if nf > 12: raise NoNet('too many decisions')
            if k >> nf: break
    except NoNet as e: return [('the result is built from minima and maxima of the lanes (%s)' % e, FALSE)]
    d = threshold(net, n)
    for i in range(len(outs)):
        bad = 0
        for tabs in runs: bad = bad or tabs[i] ^ d[n - i]      # lane i is >= t iff at least n-i lanes are
        g = TRUE
        if bad:
            k = (bad & -bad).bit_length() - 1
            one = const(T.f2bits(1.0, t.bits) if t.isf else 1, t.bits); z = const(0, t.bits)
            g = bnot(conj(*[eq(x, one if k >> j & 1 else z) for j, x in enumerate(ins)]))
        G.append(('lane %d is the element of rank %d' % (i, i), g))
    return G

def contracts_for(v):
    t = v.ty
    pre = (lambda e: [bnot(T.fnan(x)) for x in e['a']]) if t.isf else None
    yield Contract(v.tag + '_sorted', [v.p('a'), v.p('r', 'out')], '*r = a->sorted();', pre=pre, post=lambda e: sorted_post(t, e['a'], e.out['r']), opts={'hints': lambda e: {x: hint(t) for x in e['a']}})
def hint(t):
    def f(rng):
        v = rng.choice([0, 1, 1, 2, 3, 100]) if rng.random() < .7 else rng.randint(-100, 100) if t.signed else rng.randint(0, (1 << t.bits) - 1)
        return T.f2bits(float(v), t.bits) if t.isf else v % (1 << t.bits)
    return f
def arrays(ty, n):
    t = TY[ty]
    pre = (lambda e: [bnot(T.fnan(x)) for x in e['a']]) if t.isf else None
    a = P('a', 'const %s *' % t.cxx, t.kind, t.bits, n, 'in', align=t.bytes); r = P('r', '%s *' % t.cxx, t.kind, t.bits, n, 'out', align=t.bytes)
    yield Contract('array_%s_%d_sorted' % (ty, n), [a, r], 'Vc::SimdArray<%s, %d> x; x.load(a, Vc::Unaligned); x = x.sorted(); x.store(r, Vc::Unaligned);' % (t.cxx, n), pre=pre,
                   post=lambda e: sorted_post(t, e['a'], e.out['r']), opts={'hints': lambda e: {x: hint(t) for x in e['a']}})

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg): cs += contracts_for(v)
    for ty in BASE:
        for n in ([2, 3, 5, 8, 12] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16]): cs += arrays(ty, n)
    return uniq(cs)
IMPL = {'avx2': ('-march=haswell', 'AVX2+FMA+BMI2'), 'avx': ('-mavx', 'AVX'), 'sse2': ('-msse2', 'SSE2'), 'ssse3': ('-msse2', 'SSE2'), 'sse41': ('-msse4.1', 'SSE4_1'), 'sse42': ('-msse4.1', 'SSE4_1')}
def links(c):
    fl, impl = IMPL[c.replace('clang', '')]
    l = [CONST, libsrc('src/sse_sorthelper.cpp', ['Vc_COMPILE_LIB', 'Vc_IMPL=' + impl], [fl])]
    if impl.startswith('AVX'): l.append(libsrc('src/avx_sorthelper.cpp', ['Vc_COMPILE_LIB', 'Vc_IMPL=' + impl], [fl]))
    return l
def groups(tier): return [Group(c, contracts(c, tier), links=links(c), chunk=25) for c in cfgs(tier)]

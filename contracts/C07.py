"""C07: casts between vector types and between mask types equal static_cast lane by lane."""
import json, os
from vclib import *
CASTS = json.load(open(os.path.join(os.path.dirname(__file__), 'casts.json')))

def contracts(cfg, tier):
    vs = {v.tag: v for v in vecs(cfg)}
    cs = []
    for kind, to, fr, k, o in CASTS[cfg]:
        to = vs[to]; fr = vs[fr]
        isv = kind in ('v', 'ctor', 'rcc')
        par = lambda v, n, m='in': v.p(n, m) if isv else v.m(n, m)
        names = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p'][:k]
        ct = to.cxx if isv else to.mask
        args = ', '.join('*' + x for x in names)
        if kind in ('ctor', 'mctor'): body = '*r = static_cast<%s>(*a);' % ct
        elif kind == 'rcc': body = '*r = Vc::reinterpret_components_cast<%s>(*a);' % ct
        elif o is None: body = '*r = Vc::simd_cast<%s>(%s);' % (ct, args)
        else: body = '*r = Vc::simd_cast<%s, %d>(*a);' % (ct, o)
        name = '%s_%s_from_%s_%d%s' % (kind, to.tag, fr.tag, k, '' if o is None else '_o%d' % o)
        def src(e, names=names, o=o, to=to):
            xs = [x for nm in names for x in e[nm]]
            xs = xs[(o or 0) * to.n:][:to.n]
            return xs
        def pre(e, src=src, to=to, fr=fr, kind=kind):
            if kind in ('v', 'ctor') and fr.ty.isf and not to.ty.isf: return [fits(x, fr.bits, to.ty) for x in src(e)]
            return []
        def post(e, src=src, to=to, fr=fr, kind=kind, isv=isv):
            xs = src(e)
            if kind == 'rcc':
                bits = T.concat(*reversed(xs))
                exp = [T.extract(bits, (i + 1) * to.bits - 1, i * to.bits) for i in range(to.n)]
                return ew('bits of lane', e.out['r'], exp)
            exp = ([to_ty(x, fr.ty, to.ty) for x in xs] if isv else list(xs)) + [const(0, to.bits if isv else 1)] * (to.n - len(xs))
            return ew('lane', e.out['r'], exp, same(to.kind) if isv and to.ty.name != fr.ty.name else eq)
        cs.append(Contract(name, [par(fr, x) for x in names] + [par(to, 'r', 'out')], body, pre=pre, post=post))
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier), chunk=100) for c in cfgs(tier)]

"""C05: loads and stores touch exactly Size elements and convert like static_cast."""
from vclib import *

LOADS = {'double': BASE + ['schar', 'uchar'], 'float': BASE + ['schar', 'uchar'], 'int': ['int', 'uint', 'short', 'ushort', 'schar', 'uchar'],
         'uint': ['uint', 'ushort', 'uchar'], 'short': ['short', 'ushort', 'schar', 'uchar'], 'ushort': ['ushort', 'uchar']}
def loads(v):
    t = v.ty.name
    if v.abi == 'Scalar': return [u for u in BASE + ['schar', 'uchar', 'char'] if TY[u].isf or v.ty.isf or TY[u].bytes <= v.ty.bytes] + (['long', 'ulong'] if v.ty.isf else [])
    if v.abi == 'Sse' and t == 'double': return BASE
    return LOADS[t]
FLAGS_L = [('', 'u'), ('Vc::Unaligned', 'u'), ('Vc::Aligned', 'a'), ('Vc::Streaming', 'a'), ('Vc::PrefetchDefault', 'a'), ('Vc::Unaligned | Vc::PrefetchDefault', 'u')]
FLAGS_S = FLAGS_L
def fl(f): return f.replace('Vc::', '').replace(' | ', '_') or 'default'

def pre_conv(src, dst, vals):
    """static_cast is defined: the truncated value is representable"""
    if not src.isf or dst.isf: return []
    return [fits(x, src.bits, dst) for x in vals]
def contracts_for(v, tier):
    t = v.ty; n = v.n; tg = v.tag
    C = lambda name, params, body, post, **kw: Contract(tg + '_' + name, params, body, post=post, **kw)
    for un in loads(v):
        u = TY[un]
        for f, al in FLAGS_L:
            mem = lambda: v.arr('mem', 'in', ty=u, align=v.align if al == 'a' else u.bytes)
            arg = 'mem' + (', ' + f if f else '')
            post = lambda e, u=u: ew('element', e.out['r'], [to_ty(x, u, t) for x in e['mem']], same(v.kind) if u is not t and t.isf else eq)
            pre = lambda e, u=u: pre_conv(u, t, e['mem'])
            yield C('load_%s_%s' % (un, fl(f)), [mem(), v.p('r', 'out')], 'r->load(%s);' % arg, post, pre=pre)
            if f in ('', 'Vc::Unaligned', 'Vc::Aligned'):
                yield C('ctor_%s_%s' % (un, fl(f)), [mem(), v.p('r', 'out')], '*r = %s(%s);' % (v.cxx, arg), post, pre=pre)
    others = {'int': ['uint'], 'uint': ['int'], 'short': ['ushort'], 'ushort': ['short']}.get(t.name, [])
    for un in BASE + ['schar', 'uchar', 'long']:
        u = TY[un]
        for f, al in FLAGS_S:
            if un != t.name and f not in ('', 'Vc::Aligned'): continue
            mem = lambda mode: v.arr('mem', mode, ty=u, align=v.align if al == 'a' else u.bytes)
            arg = 'mem' + (', ' + f if f else '')
            pre = lambda e, u=u: pre_conv(t, u, e['a'])
            exp = lambda e, u=u: [to_ty(x, t, u) for x in e['a']]
            eqf = same(u.kind) if u is not t and u.isf else eq
            yield C('store_%s_%s' % (un, fl(f)), [v.p('a'), mem('out')], 'a->store(%s);' % arg, lambda e, exp=exp, eqf=eqf: ew('element', e.out['mem'], exp(e), eqf), pre=pre)
            if f and 'Prefetch' in f: continue
            arg = 'mem, *m' + (', ' + f if f else '')
            def postm(e, exp=exp, eqf=eqf):
                r = []
                for i, (k, o, x, old) in enumerate(zip(e['m'], e.out['mem'], exp(e), e['mem'])):
                    r += [('active element %d' % i, disj(bnot(k), eqf(o, x))), ('inactive element %d unchanged' % i, disj(k, eq(o, old)))]
                return r
            yield C('mstore_%s_%s' % (un, fl(f)), [v.p('a'), v.m('m'), mem('inout')], 'a->store(%s);' % arg, postm, pre=pre)
    # store, then load, is the identity, also for unaligned addresses that overlap vector boundaries
    yield C('roundtrip', [v.p('a'), v.arr('mem', 'out'), v.p('r', 'out')], 'a->store(mem); r->load(mem);', lambda e: ew('lane', e.out['r'], e['a']) + ew('element', e.out['mem'], e['a']))

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg): cs += contracts_for(v, tier)
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

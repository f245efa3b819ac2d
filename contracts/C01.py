"""C01: arithmetic, bitwise and shift operators act lane by lane."""
from vclib import *

def binary(v, op):
    t = v.ty; sym = BIN[op]
    sf = same(v.kind)
    def pre(e): return [g for a, b in zip(e['a'], e['b']) for g in bin_pre(op, t, a, b)]
    def post(e): return ew('a %s b' % op, e.out['r'], [scalar_bin(op, t, a, b) for a, b in zip(e['a'], e['b'])], sf)
    def posta(e): return ew('a %s= b' % op, e.out['a'], [scalar_bin(op, t, a, b) for a, b in zip(e['a'], e['b'])], sf)
    yield Contract('%s_%s' % (v.tag, sym), [v.p('a'), v.p('b'), v.p('r', 'out')], '*r = *a %s *b;' % op, pre=pre, post=post)
    yield Contract('%s_%s_assign' % (v.tag, sym), [v.p('a', 'inout'), v.p('b')], '*a %s= *b;' % op, pre=pre, post=posta)

def scalar_operand(v, op):
    """vector op scalar and scalar op vector with the scalar broadcast"""
    t = v.ty; sym = BIN[op]; sf = same(v.kind)
    def pre(e): return [g for a in e['a'] for g in bin_pre(op, t, a, e['s'])]
    def prer(e): return [g for a in e['a'] for g in bin_pre(op, t, e['s'], a)]
    def post(e): return ew('a %s s' % op, e.out['r'], [scalar_bin(op, t, a, e['s']) for a in e['a']], sf)
    def postr(e): return ew('s %s a' % op, e.out['r'], [scalar_bin(op, t, e['s'], a) for a in e['a']], sf)
    def posta(e): return ew('a %s= s' % op, e.out['a'], [scalar_bin(op, t, a, e['s']) for a in e['a']], sf)
    S = V('s', t.cxx, t.bits, t.kind)
    yield Contract('%s_%s_vs' % (v.tag, sym), [v.p('a'), S, v.p('r', 'out')], '*r = *a %s s;' % op, pre=pre, post=post)
    yield Contract('%s_%s_sv' % (v.tag, sym), [v.p('a'), S, v.p('r', 'out')], '*r = s %s *a;' % op, pre=prer, post=postr)
    yield Contract('%s_%s_assign_s' % (v.tag, sym), [v.p('a', 'inout'), S], '*a %s= s;' % op, pre=pre, post=posta)

def unary(v):
    t = v.ty; sf = same(v.kind); n = v.n
    one = const(T.f2bits(1.0, t.bits), t.bits) if t.isf else const(1, t.bits)
    inc = lambda a: T.fadd(a, one) if t.isf else T.add(a, one)
    dec = lambda a: T.fsub(a, one) if t.isf else T.sub(a, one)
    R = v.p('r', 'out')
    def c(name, body, f, params=None, out='r'):
        return Contract('%s_%s' % (v.tag, name), params or [v.p('a'), v.p('r', 'out')], body, post=lambda e: ew(name, e.out[out], [f(a) for a in e['a']], sf))
    yield c('plus', '*r = +*a;', lambda a: a)
    yield c('neg', '*r = -*a;', (lambda a: T.fneg(a)) if t.isf else T.neg)
    if not t.isf: yield c('compl', '*r = ~*a;', T.bnot)
    yield Contract('%s_not' % v.tag, [v.p('a'), v.m('r', 'out')], '*r = !*a;',
                   post=lambda e: ew('!a', e.out['r'], [(T.feq(a, const(0, t.bits)) if t.isf else eq(a, const(0, t.bits))) for a in e['a']]))
    for nm, op, f in (('inc', '++', inc), ('dec', '--', dec)):
        yield Contract('%s_pre%s' % (v.tag, nm), [v.p('a', 'inout'), v.p('r', 'out')], '*r = %s*a;' % op,
                       post=lambda e, f=f: ew('value of prefix', e.out['r'], [f(a) for a in e['a']], sf) + ew('operand after prefix', e.out['a'], [f(a) for a in e['a']], sf))
        yield Contract('%s_post%s' % (v.tag, nm), [v.p('a', 'inout'), v.p('r', 'out')], '*r = (*a)%s;' % op,
                       post=lambda e, f=f: ew('value of postfix', e.out['r'], e['a'], sf) + ew('operand after postfix', e.out['a'], [f(a) for a in e['a']], sf))

def shifts(v):
    t = v.ty
    W = max(32, t.bits)
    S = V('s', 'int', 32, 's')
    def pre(e): return [T.ult(e['s'], const(W, 32))]
    def f(op, a, s):
        ext = T.sext if t.signed else T.zext
        A_ = ext(a, W); s = T.zext(s, W) if W > 32 else s
        return T.trunc(T.shl(A_, s) if op == '<<' else (T.ashr if t.signed else T.lshr)(A_, s), t.bits)
    for op in ('<<', '>>'):
        yield Contract('%s_%si' % (v.tag, BIN[op]), [v.p('a'), S, v.p('r', 'out')], '*r = *a %s s;' % op, pre=pre,
                       post=lambda e, op=op: ew('a %s s' % op, e.out['r'], [f(op, a, e['s']) for a in e['a']]))
        yield Contract('%s_%si_assign' % (v.tag, BIN[op]), [v.p('a', 'inout'), S], '*a %s= s;' % op, pre=pre,
                       post=lambda e, op=op: ew('a %s= s' % op, e.out['a'], [f(op, a, e['s']) for a in e['a']]))
    for k in (0, 1, 5, t.bits - 1):
        for op in ('<<', '>>'):
            yield Contract('%s_%s_c%d' % (v.tag, BIN[op], k), [v.p('a'), v.p('r', 'out')], '*r = *a %s %d;' % (op, k),
                           post=lambda e, op=op, k=k: ew('a %s %d' % (op, k), e.out['r'], [f(op, a, const(k, 32)) for a in e['a']]))

def mixed(v):
    """operands of different vector types use the promoted element type"""
    pairs = {'int': ['uint'], 'short': ['ushort'], 'float': ['int'] }
    t = v.ty
    if t.name in ('int', 'short'):
        u = v.with_ty('u' + t.name)
        for op in '+-*':
            yield Contract('%s_%s_mixed' % (v.tag, BIN[op]), [v.p('a'), u.p('b'), u.p('r', 'out')], '*r = *a %s *b;' % op,
                           post=lambda e, op=op: ew('signed %s unsigned' % op, e.out['r'], [scalar_bin(op, u.ty, a, b) for a, b in zip(e['a'], e['b'])]))
    if t.isf:
        S = V('s', 'int', 32, 's')
        for op in '+-*/':
            yield Contract('%s_%s_intscalar' % (v.tag, BIN[op]), [v.p('a'), S, v.p('r', 'out')], '*r = *a %s s;' % op,
                           post=lambda e, op=op: ew('a %s int' % op, e.out['r'], [scalar_bin(op, t, a, T.sitofp(e['s'], t.bits)) for a in e['a']], fsame))

def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg):
        ops = ['+', '-', '*', '/'] + ([] if v.ty.isf else ['%', '&', '|', '^', '<<', '>>'])
        for op in ops:
            cs += binary(v, op)
            if op not in ('<<', '>>') : cs += scalar_operand(v, op)
        cs += unary(v)
        if not v.ty.isf: cs += shifts(v)
        cs += mixed(v)
    return uniq(cs)

def groups(tier):
    return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

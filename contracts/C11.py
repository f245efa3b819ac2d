"""C11: SimdArray<T, N> and SimdMaskArray<T, N> behave as arrays of N scalars for every N."""
from vclib import *
from C08 import lt, nonan, veq
from C03 import popcount

Z64 = lambda k: const(k, 64)
def pick(vals, i):
    r = vals[-1]
    for k in reversed(range(len(vals) - 1)): r = ite(eq(i, const(k, i.w)), vals[k], r)
    return r
def num(t, k): return const(T.f2bits(float(k), t.bits) if t.isf else k, t.bits)

class Arr:
    """one SimdArray<T, N>; a stub gets its lanes through arrays of exactly N elements"""
    def __init__(self, ty, n):
        self.ty = TY[ty]; self.n = n; self.V = 'Vc::SimdArray<%s, %d>' % (self.ty.cxx, n); self.M = 'Vc::SimdMaskArray<%s, %d>' % (self.ty.cxx, n)
        self.tag = 'array_%s_%d' % (ty, n)
    def a(self, name, mode='in', n=None, ty=None, align=None):
        t = ty or self.ty
        return P(name, ('const %s *' if mode == 'in' else '%s *') % t.cxx, t.kind, t.bits, n or self.n, mode, align=align or t.bytes)
    def b(self, name, mode='in', n=None):
        return P(name, 'const bool *' if mode == 'in' else 'bool *', 'b', 8, n or self.n, mode, align=1)
    def fn(self, name, sig, body, post, pre=None, ret=None, opts=None, extra=()):
        """sig: words `a` (vector in), `&a` (vector in/out), `=r` (vector out), `?k` (mask in), `&?k` (mask in/out), `=?k` (mask out);
        the objects a, r, k are bound to the parameters p_a, p_r, p_k"""
        ps, pro, epi = [], [], []
        for w in sig.split():
            mode = 'in'
            if w[0] in '&=': mode = {'&': 'inout', '=': 'out'}[w[0]]; w = w[1:]
            msk = w[0] == '?'; x = w.lstrip('?')
            ps.append((self.b if msk else self.a)(x, mode))
            C = self.M if msk else self.V
            if mode == 'out': pro.append('%s x_%s;' % (C, x) if not msk else '%s x_%s(false);' % (C, x))
            else: pro.append('%s x_%s(%s);' % (C, x, x) if msk else '%s x_%s; x_%s.load(%s, Vc::Unaligned);' % (C, x, x, x))
            if mode != 'in': epi.append('x_%s.store(%s%s);' % (x, x, '' if msk else ', Vc::Unaligned'))
        if ret:
            body = body.replace('return ', 'const auto ret_ = ') + ' ' + ' '.join(epi) + ' return ret_;'
        else: body += ' ' + ' '.join(epi)
        return Contract(self.tag + '_' + name, ps + list(extra), 'using V = %s; using M = %s; %s %s' % (self.V, self.M, ' '.join(pro), body), post=post, pre=pre, ret=ret, opts=opts)

def mask_ops(A):
    n = A.n; F = A.fn; rb = Ret('bool', 1, 'b'); ri = Ret('int', 32, 's')
    lanes = lambda f: (lambda e: ew('lane', e.out['r'], f(e)))
    for nm, op, f in (('and', '&', conj), ('or', '|', disj), ('xor', '^', T.bxor), ('land', '&&', conj), ('lor', '||', disj)):
        yield F('mask_' + nm, '?m ?k =?r', 'x_r = x_m %s x_k;' % op, lanes(lambda e, f=f: [f(a, b) for a, b in zip(e['m'], e['k'])]))
        if len(op) == 1: yield F('mask_%s_assign' % nm, '&?m ?k', 'x_m %s= x_k;' % op, lambda e, f=f: ew('lane', e.out['m'], [f(a, b) for a, b in zip(e['m'], e['k'])]))
    yield F('mask_not', '?m =?r', 'x_r = !x_m;', lanes(lambda e: [bnot(a) for a in e['m']]))
    same_ = lambda e: conj(*[eq(a, b) for a, b in zip(e['m'], e['k'])])
    yield F('mask_eq', '?m ?k', 'return x_m == x_k;', lambda e: [('m == k', eq(e.ret, same_(e)))], ret=rb)
    yield F('mask_ne', '?m ?k', 'return x_m != x_k;', lambda e: [('m != k', eq(e.ret, bnot(same_(e))))], ret=rb)
    Q = {'isFull': lambda x: conj(*x), 'isEmpty': lambda x: bnot(disj(*x)), 'isNotEmpty': lambda x: disj(*x), 'isMix': lambda x: conj(disj(*x), bnot(conj(*x)))}
    for q, f in Q.items():
        yield F('mask_' + q, '?m', 'return x_m.%s();' % q, lambda e, q=q, f=f: [(q, eq(e.ret, f(e['m'])))], ret=rb)
    for q, g in {'all_of': 'isFull', 'any_of': 'isNotEmpty', 'none_of': 'isEmpty', 'some_of': 'isMix'}.items():
        yield F('mask_' + q, '?m', 'return Vc::%s(x_m);' % q, lambda e, q=q, f=Q[g]: [(q, eq(e.ret, f(e['m'])))], ret=rb)
    yield F('mask_count', '?m', 'return x_m.count();', lambda e: [('count', eq(e.ret, popcount(e['m'])))], ret=ri)
    yield F('mask_toInt', '?m', 'return x_m.toInt();', lambda e: [('toInt', eq(e.ret, T.zext(T.concat(*reversed(e['m'])), 32) if n < 32 else T.concat(*reversed(e['m']))))], ret=ri) if n <= 32 else None
    def first(e):
        x = const(n - 1, 32)
        for i in reversed(range(n - 1)): x = ite(e['m'][i], const(i, 32), x)
        return x
    yield F('mask_firstOne', '?m', 'return x_m.firstOne();', lambda e: [('firstOne', eq(e.ret, first(e)))], ret=ri, pre=lambda e: [disj(*e['m'])])
    I = V('i', 'unsigned long', 64, 'u'); inr = lambda e: [T.ult(e['i'], Z64(n))]; h = {'hints': lambda e: {e['i']: lambda rng: rng.randrange(n)}}
    yield F('mask_get', '?m', 'const M &c = x_m; return c[i];', lambda e: [('m[i]', eq(e.ret, pick(e['m'], e['i'])))], ret=rb, pre=inr, opts=h, extra=[I])
    yield F('mask_set', '&?m', 'x_m[i] = b;', lambda e: ew('m[i] = b', e.out['m'], [ite(eq(e['i'], Z64(j)), e['b'], x) for j, x in enumerate(e['m'])]), pre=inr, opts=h, extra=[I, V('b', 'bool', 1, 'b')])
    yield F('mask_frombool', '=?r', 'x_r = M(b);', lanes(lambda e: [e['b']] * n), extra=[V('b', 'bool', 1, 'b')])
    for nm, x in (('Zero', FALSE), ('One', TRUE)):
        yield F('mask_c' + nm, '=?r', 'x_r = M(Vc::%s);' % nm, lanes(lambda e, x=x: [x] * n))
    yield F('mask_load', '=?r', 'x_r.load(m);', lanes(lambda e: e['m']), extra=[A.b('m')])
    yield F('mask_load_flag', '=?r', 'x_r.load(m, Vc::Unaligned);', lanes(lambda e: e['m']), extra=[A.b('m')])
    yield F('mask_ctor_flag', '=?r', 'x_r = M(m, Vc::Unaligned);', lanes(lambda e: e['m']), extra=[A.b('m')])
    yield F('mask_store_flag', '?m', 'x_m.store(o, Vc::Unaligned);', lambda e: ew('element', e.out['o'], e['m']), extra=[A.b('o', 'out')])
    yield F('mask_generate', '=?r', 'x_r = M::generate([m](int i) { return m[i]; });', lanes(lambda e: e['m']), extra=[A.b('m')])
    yield F('mask_shifted', '?m =?r', 'x_r = x_m.shifted(s);', lanes(lambda e: [disj(*[conj(eq(e['s'], const(j - i, 32)), e['m'][j]) for j in range(n)]) for i in range(n)]),
            pre=lambda e: [T.ult(T.add(e['s'], const(1 << 26, 32)), const(1 << 27, 32))], opts={'hints': lambda env: {env['s']: lambda rng: rng.randint(-n - 2, n + 2)}}, extra=[V('s', 'int', 32, 's')])
    for u in BASE:
        if u == A.ty.name: continue
        yield F('mask_to_' + u, '?m', 'Vc::SimdMaskArray<%s, %d>(x_m).store(o);' % (TY[u].cxx, n), lambda e: ew('lane', e.out['o'], e['m']), extra=[A.b('o', 'out')])
        yield F('mask_cast_' + u, '?m', 'Vc::simd_cast<Vc::SimdMaskArray<%s, %d>>(x_m).store(o);' % (TY[u].cxx, n), lambda e: ew('lane', e.out['o'], e['m']), extra=[A.b('o', 'out')])

def vec_ops(A, tier):
    n = A.n; t = A.ty; F = A.fn; w = t.bits
    lanes = lambda f, o='r': (lambda e: ew('lane', e.out[o], f(e)))
    x = V('x', t.cxx, t.bits, t.kind)
    fs = same(t.kind)
    def ewf(d, outs, exp): return ew(d, outs, exp, fs)
    for op in (['+', '-', '*', '/'] if t.isf else ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']):
        nm = BIN[op]
        f = lambda a, b, op=op: scalar_bin(op, t, a, b)
        pre = lambda e, op=op: sum([bin_pre(op, t, a, b) for a, b in zip(e['a'], e['b'])], [])
        shift_h = {'hints': (lambda e: {b: (lambda rng: rng.randrange(w)) for b in e['b']})} if op in ('<<', '>>') else None
        if not shift_h: yield F(nm, 'a b =r', 'x_r = x_a %s x_b;' % op, lambda e, f=f: ewf('lane', e.out['r'], [f(a, b) for a, b in zip(e['a'], e['b'])]), pre=pre, opts=shift_h)
        yield F(nm + '_assign', '&a b', 'x_a %s= x_b;' % op, lambda e, f=f: ewf('lane', e.out['a'], [f(a, b) for a, b in zip(e['a'], e['b'])]), pre=pre, opts=shift_h)
        if op not in ('<<', '>>'):
            yield F(nm + '_vs', 'a =r', 'x_r = x_a %s x;' % op, lambda e, f=f: ewf('lane', e.out['r'], [f(a, e['x']) for a in e['a']]), pre=lambda e, op=op: sum([bin_pre(op, t, a, e['x']) for a in e['a']], []), extra=[x])
            yield F(nm + '_sv', 'b =r', 'x_r = x %s x_b;' % op, lambda e, f=f: ewf('lane', e.out['r'], [f(e['x'], b) for b in e['b']]), pre=lambda e, op=op: sum([bin_pre(op, t, e['x'], b) for b in e['b']], []), extra=[x])
            if op == '%' and not t.isf: pass
            # masked: every lane must be defined for / and % (C04)
            yield F('masked_' + nm, '&a b ?k', 'x_a(x_k) %s= x_b;' % op, lambda e, f=f: [g for i in range(n) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), fs(e.out['a'][i], f(e['a'][i], e['b'][i])))), ('inactive lane %d' % i, disj(e['k'][i], eq(e.out['a'][i], e['a'][i]))))],
                    pre=pre if op in '/%' else None)
            yield F('where_' + nm, '&a b ?k', 'Vc::where(x_k) | x_a %s= x_b;' % op, lambda e, f=f: [g for i in range(n) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), fs(e.out['a'][i], f(e['a'][i], e['b'][i])))), ('inactive lane %d' % i, disj(e['k'][i], eq(e.out['a'][i], e['a'][i]))))],
                    pre=pre if op in '/%' else None)
        elif not t.isf:
            s = V('s', 'int', 32, 's')
            g = lambda a, s, op=op: scalar_bin(op, t, a, T.trunc(s, w))
            sp = lambda e: [T.ult(e['s'], const(w, 32))]
            sh = {'hints': lambda e: {e['s']: lambda rng: rng.randrange(w)}}
            yield F(nm + '_int', 'a =r', 'x_r = x_a %s s;' % op, lanes(lambda e, g=g: [g(a, e['s']) for a in e['a']]), pre=sp, extra=[s], opts=sh)
            yield F(nm + '_int_assign', '&a', 'x_a %s= s;' % op, lanes(lambda e, g=g: [g(a, e['s']) for a in e['a']], 'a'), pre=sp, extra=[s], opts=sh)
    for op, nm in CMP.items():
        yield F(nm, 'a b =?r', 'x_r = x_a %s x_b;' % op, lanes(lambda e, op=op: [scalar_cmp(op, t, a, b) for a, b in zip(e['a'], e['b'])]))
        yield F(nm + '_vs', 'a =?r', 'x_r = x_a %s x;' % op, lanes(lambda e, op=op: [scalar_cmp(op, t, a, e['x']) for a in e['a']]), extra=[x])
    neg = T.fneg if t.isf else T.neg
    yield F('minus', 'a =r', 'x_r = -x_a;', lambda e: ewf('lane', e.out['r'], [neg(a) for a in e['a']]))
    yield F('plus', 'a =r', 'x_r = +x_a;', lanes(lambda e: e['a']))
    if not t.isf: yield F('compl', 'a =r', 'x_r = ~x_a;', lanes(lambda e: [T.bnot_(a) if hasattr(T, 'bnot_') else T.bxor(a, const((1 << w) - 1, w)) for a in e['a']]))
    zero = num(t, 0)
    yield F('lnot', 'a =?r', 'x_r = !x_a;', lanes(lambda e: [(T.feq if t.isf else eq)(a, zero) for a in e['a']]))
    # masks select lanes
    kx = lambda e, f: [g for i in range(n) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), eq(e.out['a'][i], f(e, i)))), ('inactive lane %d' % i, disj(e['k'][i], eq(e.out['a'][i], e['a'][i]))))]
    yield F('masked_assign', '&a b ?k', 'x_a(x_k) = x_b;', lambda e: kx(e, lambda e, i: e['b'][i]))
    yield F('masked_assign_s', '&a ?k', 'x_a(x_k) = x;', lambda e: kx(e, lambda e, i: e['x']), extra=[x])
    yield F('where_assign', '&a b ?k', 'Vc::where(x_k) | x_a = x_b;', lambda e: kx(e, lambda e, i: e['b'][i]))
    yield F('assign', '&a b ?k', 'x_a.assign(x_b, x_k);', lambda e: kx(e, lambda e, i: e['b'][i]))
    yield F('setZero_masked', '&a ?k', 'x_a.setZero(x_k);', lambda e: kx(e, lambda e, i: zero))
    yield F('setZeroInverted', '&a ?k', 'x_a.setZeroInverted(x_k);', lambda e: ew('lane', e.out['a'], [ite(k, a, zero) for k, a in zip(e['k'], e['a'])]))
    yield F('iif', 'a b ?k =r', 'x_r = Vc::iif(x_k, x_a, x_b);', lanes(lambda e: [ite(k, a, b) for k, a, b in zip(e['k'], e['a'], e['b'])]))
    yield F('masked_preinc', '&a ?k', '++x_a(x_k);', lambda e: [g for i in range(n) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), fs(e.out['a'][i], scalar_bin('+', t, e['a'][i], num(t, 1))))), ('inactive lane %d' % i, disj(e['k'][i], eq(e.out['a'][i], e['a'][i]))))])
    # loads and stores
    yield F('load', '=r', 'x_r.load(p, Vc::Unaligned);', lanes(lambda e: e['p']), extra=[A.a('p')])
    yield F('ctor', '=r', 'x_r = V(p, Vc::Unaligned);', lanes(lambda e: e['p']), extra=[A.a('p')])
    yield F('load_aligned', '=r', 'x_r.load(p, Vc::Aligned);', lanes(lambda e: e['p']), extra=[A.a('p', align=512)])
    yield F('store', 'a', 'x_a.store(p, Vc::Unaligned);', lambda e: ew('element', e.out['p'], e['a']), extra=[A.a('p', 'out')])
    yield F('store_aligned', 'a', 'x_a.store(p, Vc::Aligned);', lambda e: ew('element', e.out['p'], e['a']), extra=[A.a('p', 'out', align=512)])
    yield F('store_masked', 'a ?k', 'x_a.store(p, x_k, Vc::Unaligned);', lambda e: [g for i in range(n) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), eq(e.out['p'][i], e['a'][i]))), ('inactive lane %d' % i, disj(e['k'][i], eq(e.out['p'][i], e['p'][i]))))], extra=[A.a('p', 'inout')])
    LD = {'double': ['float', 'int'], 'float': ['double', 'int', 'ushort', 'schar'], 'int': ['short', 'uchar'], 'uint': ['ushort', 'uchar'], 'short': ['schar', 'uchar'], 'ushort': ['uchar']}
    for u in LD[t.name]:
        U = TY[u]
        yield F('load_' + u, '=r', 'x_r.load(p, Vc::Unaligned);', lambda e, U=U: ewf('lane', e.out['r'], [to_ty(y, U, t) for y in e['p']]), extra=[A.a('p', ty=U)])
        if not (t.isf and not U.isf):
            yield F('store_' + u, 'a', 'x_a.store(p, Vc::Unaligned);', lambda e, U=U: ew('element', e.out['p'], [to_ty(y, t, U) for y in e['a']], same(U.kind)), extra=[A.a('p', 'out', ty=U)])
    # creation
    yield F('broadcast', '=r', 'x_r = V(x);', lanes(lambda e: [e['x']] * n), extra=[x])
    yield F('assign_s', '=r', 'x_r = x;', lanes(lambda e: [e['x']] * n), extra=[x])
    for nm, val in (('Zero', lambda i: zero), ('One', lambda i: num(t, 1)), ('IndexesFromZero', lambda i: num(t, i))):
        yield F('s' + nm, '=r', 'x_r = V::%s();' % nm, lanes(lambda e, val=val: [val(i) for i in range(n)]))
        yield F('c' + nm, '=r', 'x_r = V(Vc::%s);' % nm, lanes(lambda e, val=val: [val(i) for i in range(n)]))
    yield F('value_init', '=r', 'x_r = V();', None) if False else F('setZero', '&a', 'x_a.setZero();', lanes(lambda e: [zero] * n, 'a'))
    yield F('init_list', '=r', 'x_r = V{%s};' % ', '.join('p[%d]' % i for i in range(n)), lanes(lambda e: e['p']), extra=[A.a('p')])
    yield F('generate', '=r', 'x_r = V::generate([&](int i) { return p[i]; });', lanes(lambda e: e['p']), extra=[A.a('p')])
    yield F('generator_ctor', '=r', 'x_r = V([&](int i) { return p[i]; });', lanes(lambda e: e['p']), extra=[A.a('p')])
    # elements
    I = V('i', 'unsigned long', 64, 'u'); inr = lambda e: [T.ult(e['i'], Z64(n))]; h = {'hints': lambda e: {e['i']: lambda rng: rng.randrange(n)}}
    rt = Ret(t.cxx, t.bits, t.kind)
    yield F('element', 'a', 'const V &c = x_a; return c[i];', lambda e: [('the element', eq(e.ret, pick(e['a'], e['i'])))], ret=rt, pre=inr, opts=h, extra=[I])
    yield F('element_write', '&a', 'x_a[i] = x;', lambda e: ew('element', e.out['a'], [ite(eq(e['i'], Z64(j)), e['x'], y) for j, y in enumerate(e['a'])]), pre=inr, opts=h, extra=[I, x])
    def upd(e):
        out = []
        for j, (o, y) in enumerate(zip(e.out['a'], e['a'])):
            here = eq(e['i'], Z64(j))
            out += [('element %d updated' % j, disj(bnot(here), fs(o, scalar_bin('+', t, y, e['x'])))), ('element %d unchanged' % j, disj(here, eq(o, y)))]
        return out
    yield F('element_update', '&a', 'x_a[i] += x;', upd, pre=inr, opts=h, extra=[I, x])
    # lane movement
    amt = V('s', 'int', 32, 's'); ah = {'hints': lambda e: {e['s']: lambda rng: rng.randint(-2 * n - 2, 2 * n + 2)}}
    def sh(xs, fill, s, i):
        r = zero
        for j in range(-n if fill else 0, 2 * n if fill else n):
            y = xs[j] if 0 <= j < n else fill[j % n]
            r = ite(eq(s, const(j - i, 32)), y, r)
        return r
    far = lambda e: [T.ult(T.add(e['s'], const(1 << 26, 32)), const(1 << 27, 32))]
    for k in range(-n, n + 1):
        kn = '%s%d' % ('m' if k < 0 else '', abs(k))
        yield F('shifted_' + kn, 'a =r', 'x_r = x_a.shifted(%d);' % k, lanes(lambda e, k=k: [e['a'][i + k] if 0 <= i + k < n else zero for i in range(n)]))
        yield F('shifted_in_' + kn, 'a f =r', 'x_r = x_a.shifted(%d, x_f);' % k, lanes(lambda e, k=k: [e['a'][i + k] if 0 <= i + k < n else e['f'][(i + k) % n] for i in range(n)]))
    yield F('shifted_beyond', 'a =r', 'x_r = x_a.shifted(s);', lanes(lambda e: [zero] * n), extra=[amt], pre=lambda e: far(e) + [bnot(T.slt(T.add(e['s'], const(n, 32)), const(2 * n + 1, 32)))],
            opts={'hints': lambda e: {e['s']: lambda rng: rng.randint(n + 1, 3 * n)}})
    yield F('shifted_below', 'a =r', 'x_r = x_a.shifted(s);', lanes(lambda e: [zero] * n), extra=[amt], pre=lambda e: far(e) + [T.slt(e['s'], const(-n, 32))],
            opts={'hints': lambda e: {e['s']: lambda rng: rng.randint(-3 * n, -n - 1)}})
    # rotated depends on the amount modulo n only: one contract for each remainder of the int
    N32 = const(n, 32)
    for k in range(-n + 1, n):
        yield F('rotated_%s%d' % ('m' if k < 0 else '', abs(k)), 'a =r', 'x_r = x_a.rotated(s);', lanes(lambda e, k=k: [e['a'][(i + k) % n] for i in range(n)]), extra=[amt],
                opts={'facts': lambda e, k=k: [(('srem', e['s'], N32), const(k, 32))], 'hints': lambda e, k=k: {e['s']: lambda rng: (k + n * rng.randrange(0, 1000) * (1 if k > 0 else -1 if k < 0 else rng.choice([1, -1]))) & 0xffffffff}})
    yield F('reversed', 'a =r', 'x_r = x_a.reversed();', lanes(lambda e: e['a'][::-1]))
    il = lambda e: [y for p in zip(e['a'], e['b']) for y in p]
    yield F('interleaveLow', 'a b =r', 'x_r = x_a.interleaveLow(x_b);', lanes(lambda e: il(e)[:n])) if n % 2 == 0 else None
    yield F('interleaveHigh', 'a b =r', 'x_r = x_a.interleaveHigh(x_b);', lanes(lambda e: il(e)[n:])) if n % 2 == 0 else None
    ap = 'static_cast<%s>(y ^ 5)' % t.cxx if not t.isf else '-y'
    AF = (lambda y: T.bxor(y, const(5, w))) if not t.isf else T.fneg
    yield F('apply', 'a =r', 'x_r = x_a.apply([](%s y) { return %s; });' % (t.cxx, ap), lanes(lambda e: [AF(y) for y in e['a']]))
    # reductions
    for name, op in (('sum', 'fadd'), ('product', 'fmul')):
        yield F(name, 'a', 'return x_a.%s();' % name, lambda e, op=op: [('combines each lane once', reduction(e.ret, e['a'], [TRUE] * n, op, t))], ret=rt)
        if n <= (4 if w == 64 else 8): yield F('masked_' + name, 'a ?k', 'return x_a.%s(x_k);' % name, lambda e, op=op: [('combines each selected lane once', reduction(e.ret, e['a'], e['k'], op, t))], ret=rt)
    for name in ('min', 'max') if n <= (8 if t.isf else 16) else ():
        less = (lambda a, b: lt(t)(a, b)) if name == 'min' else (lambda a, b: lt(t)(b, a))
        def post(e, less=less, masked=False):
            ks = e['k'] if masked else [TRUE] * n
            return [('is a selected lane', disj(*[conj(k, veq(t)(e.ret, y)) for k, y in zip(ks, e['a'])]))] + [
                    ('no selected lane is beyond it, lane %d' % i, disj(bnot(k), bnot(less(y, e.ret)))) for i, (k, y) in enumerate(zip(ks, e['a']))]
        yield F(name, 'a', 'return x_a.%s();' % name, post, ret=rt, pre=lambda e: nonan(t, e['a']))
        yield F('masked_' + name, 'a ?k', 'return x_a.%s(x_k);' % name, lambda e, post=post: post(e, masked=True), ret=rt, pre=lambda e: nonan(t, e['a'], e['k']) + [disj(*e['k'])])
    yield F('partialSum', 'a =r', 'x_r = x_a.partialSum();', lambda e: [('lane %d is the sum of lanes 0..%d' % (i, i), reduction(o, e['a'][:i+1], [TRUE] * (i+1), 'fadd', t)) for i, o in enumerate(e.out['r'])])
    for name in ('min', 'max'):
        less = (lambda a, b: lt(t)(a, b)) if name == 'min' else (lambda a, b: lt(t)(b, a))
        yield F('Vc_' + name, 'a b =r', 'x_r = Vc::%s(x_a, x_b);' % name, lambda e, less=less: [('lane %d' % i, veq(t)(o, ite(less(b, a), b, a))) for i, (o, a, b) in enumerate(zip(e.out['r'], e['a'], e['b']))], pre=lambda e: nonan(t, e['a']) + nonan(t, e['b']))
    # conversions
    for u in BASE:
        U = TY[u]
        if u != t.name:
            pre = (lambda e, U=U: [fits(a, w, U) for a in e['a']]) if t.isf and not U.isf else None
            post = lambda e, U=U: ew('lane', e.out['o'], [to_ty(a, t, U) for a in e['a']], same(U.kind))
            hh = {'hints': lambda e: {a: (lambda rng: T.f2bits(float(rng.randrange(0, 30000)), w)) for a in e['a']}} if pre else None
            yield F('cast_' + u, 'a', 'Vc::simd_cast<Vc::SimdArray<%s, %d>>(x_a).store(o, Vc::Unaligned);' % (U.cxx, n), post, extra=[A.a('o', 'out', ty=U)], pre=pre, opts=hh)
            yield F('conv_' + u, 'a', 'Vc::SimdArray<%s, %d> c(x_a); c.store(o, Vc::Unaligned);' % (U.cxx, n), post, extra=[A.a('o', 'out', ty=U)], pre=pre, opts=hh)
    for m in sorted({max(1, n // 2), n + 1, 2 * n}):
        yield F('resize_%d' % m, 'a', 'Vc::simd_cast<Vc::SimdArray<%s, %d>>(x_a).store(o, Vc::Unaligned);' % (t.cxx, m), lambda e, m=m: ew('lane', e.out['o'], [e['a'][i] if i < n else zero for i in range(m)]), extra=[A.a('o', 'out', n=m)])
    h2 = n // 2
    if n % 2 == 0:
        yield F('upper_half', 'a', 'Vc::simd_cast<Vc::SimdArray<%s, %d>, 1>(x_a).store(o, Vc::Unaligned);' % (t.cxx, h2), lambda e: ew('lane', e.out['o'], e['a'][h2:]), extra=[A.a('o', 'out', n=h2)])
    yield F('join', 'a b', 'Vc::simd_cast<Vc::SimdArray<%s, %d>>(x_a, x_b).store(o, Vc::Unaligned);' % (t.cxx, 2 * n), lambda e: ew('lane', e.out['o'], e['a'] + e['b']), extra=[A.a('o', 'out', n=2 * n)])
    # gathers
    ix = P('ix', 'const int *', 's', 32, n, 'in', align=4); M = 5
    bounds = lambda e: [T.ult(i, const(M, 32)) for i in e['ix']]
    gh = {'hints': lambda e: {i: (lambda rng: rng.randrange(M)) for i in e['ix']}}
    gx = [A.a('mem', n=M), ix]
    idx = 'Vc::SimdArray<int, %d> x_i; x_i.load(ix, Vc::Unaligned); ' % n
    yield F('gather', '=r', idx + 'x_r.gather(mem, x_i);', lanes(lambda e: [pick(e['mem'], i) for i in e['ix']]), pre=bounds, opts=gh, extra=gx)
    yield F('gather_ctor', '=r', idx + 'x_r = V(mem, x_i);', lanes(lambda e: [pick(e['mem'], i) for i in e['ix']]), pre=bounds, opts=gh, extra=gx)

QUICK = {'avx2': {3: BASE, 12: BASE, 8: ['float', 'ushort']}, 'sse2': {3: BASE, 8: ['double', 'float', 'ushort']},
         'avx': {12: ['double', 'float', 'int']}, 'sse42': {5: ['float', 'uint', 'short']}}
def contracts(cfg, tier):
    cs = []
    for ty in BASE:
        for n in ([k for k in QUICK[cfg] if ty in QUICK[cfg][k]] if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24]):
            A = Arr(ty, n)
            cs += [c for c in vec_ops(A, tier) if c] + [c for c in mask_ops(A) if c]
    return uniq(cs)
def groups(tier): return [Group(c, contracts(c, tier), links=[CONST]) for c in cfgs(tier)]

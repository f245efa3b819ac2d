"""C06: gathers and scatters access exactly the addressed elements."""
from vclib import *
from C11 import pick

M = 5                      # elements of the bounded tables (their contracts give replayable counterexamples)
LIM = 1 << 40              # elements on either side of the pointer for the unbounded ones
BIG = 1000000
def c64(k): return const(k, 64)
def wide(ix, signed): return ix if ix.w == 64 else T.sext(ix, 64) if signed else T.zext(ix, 64)
def ult(a, b): return T.ult(a, b)

class Idx:
    """an index object with n (or more) entries built from the parameter ix"""
    def __init__(self, name, ty, code, n): self.name = name; self.ty = TY[ty]; self.code = code; self.n = n
    def param(self): return P('ix', 'const %s *' % self.ty.cxx, self.ty.kind, self.ty.bits, self.n, 'in', align=self.ty.bytes)
def simd_idx(ty, n, name=None): return Idx(name or 'simd_' + ty, ty, 'Vc::SimdArray<%s, %d> x; x.load(ix, Vc::Unaligned);' % (TY[ty].cxx, n), n)
def idxs(v, cfg):
    n = v.n
    r = [simd_idx('int', n), simd_idx('short', n), simd_idx('ushort', n), simd_idx('uint', n),
         Idx('carray_int', 'int', 'const int (&x)[%d] = *reinterpret_cast<const int (*)[%d]>(ix);' % (n, n), n),
         Idx('array_ushort', 'ushort', 'const auto &x = *reinterpret_cast<const std::array<unsigned short, %d> *>(ix);' % n, n),
         Idx('vcarray_schar', 'schar', 'const auto &x = *reinterpret_cast<const Vc::array<signed char, %d> *>(ix);' % n, n)]
    for u in vecs(cfg, tys=['int', 'short', 'uint']):
        if n <= u.n <= 2 * n and u.abi == v.abi and v.abi != 'Scalar':
            r.append(Idx('native_' + u.ty.name, u.ty.name, '%s x; x.load(ix, Vc::Unaligned);' % u.cxx, u.n))
    return r

def act(e, i): return e['k'][i] if 'k' in e.ini else TRUE
def small(e, n): return [disj(bnot(act(e, i)), ult(e['ix'][i], const(M, e['ix'][i].w))) for i in range(n)]
def hints(n): return lambda e: {i: (lambda rng: rng.randrange(M)) for i in e['ix']}
def chain(e, n, at, vals, old):
    """the value of a location after the scatter: the last active lane that addresses it"""
    r = old
    for i in range(n): r = ite(conj(act(e, i), at(i)), vals[i], r)
    return r

MT = {'double': ['double', 'float', 'int', 'short'], 'float': ['float', 'double', 'int', 'short', 'uchar'], 'int': ['int', 'short', 'uchar'], 'uint': ['uint', 'ushort', 'uchar'],
      'short': ['short', 'uchar', 'schar', 'int'], 'ushort': ['ushort', 'uchar', 'short']}

def gathers(v, I, u, tag):
    """bounded tables of M elements"""
    t = v.ty; n = v.n; tg = '%s%s_%s_%s' % (tag, v.tag, u.name, I.name)
    mem = lambda mode='in': v.arr('mem', mode, n=M, ty=u, align=u.bytes)
    o = lambda name, ps, body, post, pre=None: Contract(tg + '_' + name, ps, I.code + ' ' + body, post=post, pre=pre, opts={'hints': hints(n)})
    val = lambda e, i: to_ty(pick(e['mem'], e['ix'][i]), u, t)
    sm = same(t.kind) if u is not t else eq
    pre = lambda e: small(e, n)
    yield o('gather', [mem(), I.param(), v.p('r', 'out')], 'r->gather(mem, x);', lambda e: [('lane %d' % i, sm(y, val(e, i))) for i, y in enumerate(e.out['r'])], pre)
    yield o('ctor', [mem(), I.param(), v.p('r', 'out')], '*r = %s(mem, x);' % v.cxx, lambda e: [('lane %d' % i, sm(y, val(e, i))) for i, y in enumerate(e.out['r'])], pre)
    def pm(e):
        g = []
        for i, y in enumerate(e.out['r']):
            g += [('active lane %d' % i, disj(bnot(e['k'][i]), sm(y, val(e, i)))), ('inactive lane %d unchanged' % i, disj(e['k'][i], eq(y, e['r'][i])))]
        return g
    yield o('mgather', [v.m('k'), mem(), I.param(), v.p('r', 'inout')], 'r->gather(mem, x, *k);', pm, pre)
    zero = const(0, t.bits)
    yield o('mctor', [v.m('k'), mem(), I.param(), v.p('r', 'out')], '*r = %s(mem, x, *k);' % v.cxx, lambda e: [g for i, y in enumerate(e.out['r']) for g in (
        ('active lane %d' % i, disj(bnot(e['k'][i]), sm(y, val(e, i)))), ('inactive lane %d is zero' % i, disj(e['k'][i], eq(y, zero))))], pre)

def conv_pre(e, t, u): return [fits(x, t.bits, u) for x in e['a']] if t.isf and not u.isf else []
def scatters(v, I, u, tag):
    """with the default strategy the last of several active lanes with one index wins, with the others it is one of them"""
    t = v.ty; n = v.n; tg = '%s%s_%s_%s' % (tag, v.tag, u.name, I.name)
    mem = lambda: v.arr('mem', 'inout', n=M, ty=u, align=u.bytes)
    sm = same(u.kind) if u is not t and u.isf else eq
    def post(e):
        vals = [to_ty(a, t, u) for a in e['a']]
        if tag:
            hit = lambda i, j: conj(act(e, i), eq(e['ix'][i], const(j, e['ix'][i].w)))
            return [('element %d' % j, disj(*[conj(hit(i, j), sm(y, vals[i])) for i in range(n)], conj(*[bnot(hit(i, j)) for i in range(n)], eq(y, old)))) for j, (y, old) in enumerate(zip(e.out['mem'], e['mem']))]
        return [('element %d' % j, sm(y, chain(e, n, lambda i: eq(e['ix'][i], const(j, e['ix'][i].w)), vals, old))) for j, (y, old) in enumerate(zip(e.out['mem'], e['mem']))]
    def h(e):
        r = hints(n)(e)
        if t.isf and not u.isf: r.update({a: (lambda rng: T.f2bits(float(rng.randrange(0, 100)), t.bits)) for a in e['a']})
        return r
    o = lambda name, ps, body: Contract(tg + '_' + name, ps, I.code + ' ' + body, post=post, pre=lambda e: small(e, n) + conv_pre(e, t, u), opts={'hints': h})
    yield o('scatter', [v.p('a'), mem(), I.param()], 'a->scatter(mem, x);')
    yield o('mscatter', [v.m('k'), v.p('a'), mem(), I.param()], 'a->scatter(mem, x, *k);')

def unbounded(v, I, tag):
    """tables of any size on both sides of the pointer: every index of an active lane is one of an element"""
    t = v.ty; n = v.n; u = t; tg = '%s%s_any_%s' % (tag, v.tag, I.name); B = u.bytes
    lo = V('lo', 'unsigned long', 64, 'u'); hi = V('hi', 'unsigned long', 64, 'u')
    def mem(mode='in'):
        return A('mem', ('const %s *' if mode == 'in' else '%s *') % u.cxx, mode, align=B, size=lambda e: T.mul(T.add(e['lo'], e['hi']), c64(B)), off=lambda e: T.mul(e['lo'], c64(B)))
    ixs = lambda e: [wide(x, I.ty.signed) for x in e['ix'][:n]]
    off = lambda e, i: T.add(T.mul(ixs(e)[i], c64(B)), T.mul(e['lo'], c64(B)))
    def pre(e):
        r = [ult(e['lo'], c64(LIM)), ult(e['hi'], c64(LIM))]
        for i, x in enumerate(ixs(e)):
            ok = conj(T.sle(T.neg(e['lo']), x), T.slt(x, e['hi'])) if I.ty.signed else T.slt(x, e['hi'])
            if not I.ty.signed and I.ty.bits == 32: ok = conj(ok, ult(x, c64(1 << 31)))
            r.append(disj(bnot(act(e, i)), ok))
        return r
    o = lambda name, ps, body, post, pre=pre: Contract(tg + '_' + name, [lo, hi] + ps, I.code + ' ' + body, post=post, pre=pre, opts={'selftest': False, 'hints': hints})
    def hints(e):
        h = {e['lo']: lambda r: r.choice([0, 8]) if I.ty.signed else 0, e['hi']: lambda r: r.choice([8, 9, 20])}
        if 'q' in e.ini: h[e['q']] = lambda r: r.randrange(8)
        if hasattr(e['ix'], '__iter__'):
            for x in e['ix']: h[x] = lambda r: r.randrange(-8 if I.ty.signed and r.random() < .3 else 0, 8)
        return h
    val = lambda e, i: T.aselect(e['mem'], off(e, i), B)
    yield o('gather', [mem(), I.param(), v.p('r', 'out')], 'r->gather(mem, x);', lambda e: [('lane %d' % i, eq(y, val(e, i))) for i, y in enumerate(e.out['r'])])
    def pm(e):
        g = []
        for i, y in enumerate(e.out['r']):
            g += [('active lane %d' % i, disj(bnot(e['k'][i]), eq(y, val(e, i)))), ('inactive lane %d unchanged' % i, disj(e['k'][i], eq(y, e['r'][i])))]
        return g
    yield o('mgather', [v.m('k'), mem(), I.param(), v.p('r', 'inout')], 'r->gather(mem, x, *k);', pm)
    q = V('q', 'unsigned long', 64, 'u')
    qoff = lambda e: T.mul(e['q'], c64(B))
    def ps(e):
        at = lambda i: eq(qoff(e), off(e, i))
        return [('any element', eq(T.aselect(e.out['mem'], qoff(e), B), chain(e, n, at, e['a'], T.aselect(e['mem'], qoff(e), B))))]
    qpre = lambda e: pre(e) + [ult(e['q'], T.add(e['lo'], e['hi']))]
    yield o('scatter', [q, v.p('a'), mem('inout'), I.param()], 'a->scatter(mem, x);', ps, qpre)
    yield o('mscatter', [v.m('k'), q, v.p('a'), mem('inout'), I.param()], 'a->scatter(mem, x, *k);', ps, qpre)

# ---------------------------------------------------------------- arrays of structures and nested arrays
def structs(v, tag):
    """struct S { unsigned char c; T x; double d; T y[3]; }, an array of BIG of them (any index) or of 3 (replayable)"""
    t = v.ty; n = v.n; B = t.bytes; tg = tag + v.tag
    ox = B; od = (ox + B + 7) // 8 * 8; oy = od + 8; al = 8; SZ = (oy + 3 * B + al - 1) // al * al
    decl = lambda nm: 'struct S_%s { unsigned char c; %s x; double d; %s y[3]; };' % (nm, t.cxx, t.cxx)
    I = simd_idx('int', n)
    fields = lambda N: [(k * SZ + o, w, kd, 'mem[%d].%s' % (k, f)) for k in range(N) for f, o, w, kd in [('c', 0, 8, 'u'), ('x', ox, t.bits, t.kind), ('d', od, 64, 'f')] + [('y[%d]' % j, oy + j * B, t.bits, t.kind) for j in range(3)]]
    for N, sfx in ((3, ''), (BIG, '_any')):
        for nm, sub, f in (('x', '[&S::x]', lambda e, i: c64(ox)), ('y1', '[&S::y][1]', lambda e, i: c64(oy + B)), ('yj', '[&S::y][z]', lambda e, i: T.add(c64(oy), T.mul(T.sext(e['jx'][i], 64), c64(B))))):
            name = '%s_struct_%s%s' % (tg, nm, sfx)
            ps = []
            code = I.code
            if nm == 'yj':
                ps = [P('jx', 'const int *', 's', 32, n, 'in', align=4)]; code += ' Vc::SimdArray<int, %d> z; z.load(jx, Vc::Unaligned);' % n
            Cn = 'Vc::array<S, %d>' % N
            off = lambda e, i, f=f: T.add(T.mul(T.sext(e['ix'][i], 64), c64(SZ)), f(e, i))
            pre = lambda e, N=N, nm=nm: [disj(bnot(act(e, i)), conj(ult(e['ix'][i], const(N, 32)), *([ult(e['jx'][i], const(3, 32))] if nm == 'yj' else []))) for i in range(n)]
            fi = {'x': 1, 'y1': 4}.get(nm)
            if N == 3:
                def val(e, i, fi=fi):
                    cand = [e['mem'][k * 6 + (fi if fi is not None else 3 + j)] for k in range(3) for j in ([0] if fi is not None else range(3))]
                    ix = e['ix'][i] if fi is not None else T.add(T.mul(e['ix'][i], const(3, 32)), e['jx'][i])
                    return pick(cand, ix)
            else: val = lambda e, i, off=off: T.aselect(e['mem'], off(e, i), B)
            mk = lambda mode, N=N: P('mem', 'void *' if mode != 'in' else 'const void *', 'raw', 8, 0, mode, align=8, fields=fields(3), size=3 * SZ) if N == 3 else A('mem', 'void *' if mode != 'in' else 'const void *', mode, align=8, size=N * SZ)
            cast = ('auto &arr = *static_cast<const %s *>(mem);' if nm == 'x' else 'auto &arr = *static_cast<%s *>(const_cast<void *>(mem));') % Cn; castw = 'auto &arr = *static_cast<%s *>(mem);' % Cn
            h = {'hints': lambda e, N=N: dict([(i, (lambda rng: rng.randrange(N))) for i in e['ix']] + [(i, (lambda rng: rng.randrange(3))) for i in (e['jx'] if 'jx' in e.ini else [])])} if N == 3 else {'selftest': False}
            S = lambda nme, params, body, post, pre=pre, d=decl, h=h: Contract(nme, params, 'using S = S_%s; ' % nme + body, post=post, pre=pre, decl=d(nme), opts=h)
            yield S(name + '_gather', [mk('in'), I.param()] + ps + [v.p('r', 'out')], code + cast + '*r = arr[x]%s;' % sub, lambda e, val=val: [('lane %d' % i, eq(y, val(e, i))) for i, y in enumerate(e.out['r'])])
            if nm != 'y1':
                yield S(name + '_mgather', [v.m('k'), mk('in'), I.param()] + ps + [v.p('r', 'inout')], code + cast + 'r->gather(arr[x]%s.gatherArguments(), *k);' % sub, lambda e, val=val: [g for i, y in enumerate(e.out['r']) for g in (('active lane %d' % i, disj(bnot(e['k'][i]), eq(y, val(e, i)))), ('inactive lane %d' % i, disj(e['k'][i], eq(y, e['r'][i]))))])
            if N == 3:
                def post(e, fi=fi):
                    g = []
                    for k in range(3):
                        for f in range(6):
                            old = e['mem'][k * 6 + f]; y = e.out['mem'][k * 6 + f]
                            hit = (f == fi) if fi is not None else f >= 3
                            x = old
                            if hit:
                                at = lambda i, k=k, f=f: conj(eq(e['ix'][i], const(k, 32)), *([eq(e['jx'][i], const(f - 3, 32))] if fi is None else []))
                                x = chain(e, n, at, e['a'], old)
                            g.append(('%s' % ('element %d' % k if hit else 'other member %d of element %d' % (f, k)), eq(y, x)))
                    return g
                yield S(name + '_scatter', [v.p('a'), mk('inout'), I.param()] + ps, code + castw + 'arr[x]%s = *a;' % sub, post)
                yield S(name + '_mscatter', [v.m('k'), v.p('a'), mk('inout'), I.param()] + ps, code + castw + 'a->scatter(arr[x]%s.scatterArguments(), *k);' % sub, post)
    # plain arrays through the subscript operator
    name = tg + '_array'
    mem = lambda mode: v.arr('mem', mode, n=M)
    body = I.code + 'auto &arr = *reinterpret_cast<%sVc::array<%s, %d> *>(mem); '
    pre = lambda e: small(e, n); h = {'hints': hints(n)}
    yield Contract(name + '_gather', [mem('in'), I.param(), v.p('r', 'out')], body % ('const ', t.cxx, M) + '*r = arr[x];', post=lambda e: [('lane %d' % i, eq(y, pick(e['mem'], e['ix'][i]))) for i, y in enumerate(e.out['r'])], pre=pre, opts=h)
    yield Contract(name + '_scatter', [v.p('a'), mem('inout'), I.param()], body % ('', t.cxx, M) + 'arr[x] = *a;', post=lambda e: [('element %d' % j, eq(y, chain(e, n, lambda i: eq(e['ix'][i], const(j, 32)), e['a'], old))) for j, (y, old) in enumerate(zip(e.out['mem'], e['mem']))], pre=pre, opts=h)
    # nested arrays: mem[3][2], outer index vector, inner index a scalar or a vector
    nested = I.code + 'auto &arr = *reinterpret_cast<%sVc::array<Vc::array<%s, 2>, 3> *>(mem); '
    m6 = lambda mode: v.arr('mem', mode, n=6)
    pre3 = lambda e: [ult(x, const(3, 32)) for x in e['ix']] + ([ult(x, const(2, 32)) for x in e['jx']] if 'jx' in e.ini else [])
    h3 = {'hints': lambda e: dict([(i, (lambda rng: rng.randrange(3))) for i in e['ix']] + [(i, (lambda rng: rng.randrange(2))) for i in (e['jx'] if 'jx' in e.ini else [])])}
    at1 = lambda e, i: T.add(T.add(e['ix'][i], e['ix'][i]), const(1, 32))
    atj = lambda e, i: T.add(T.add(e['ix'][i], e['ix'][i]), e['jx'][i])
    jx = P('jx', 'const int *', 's', 32, n, 'in', align=4); jc = 'Vc::SimdArray<int, %d> z; z.load(jx, Vc::Unaligned); ' % n
    for nm, ps, code, sub, at in (('n1', [], '', '[1]', at1), ('nj', [jx], jc, '[z]', atj)):
        yield Contract('%s_%s_gather' % (tg, nm), [m6('in'), I.param()] + ps + [v.p('r', 'out')], nested % ('const ', t.cxx) + code + '*r = arr[x]%s;' % sub, post=lambda e, at=at: [('lane %d' % i, eq(y, pick(e['mem'], at(e, i)))) for i, y in enumerate(e.out['r'])], pre=pre3, opts=h3)
        yield Contract('%s_%s_scatter' % (tg, nm), [v.p('a'), m6('inout'), I.param()] + ps, nested % ('', t.cxx) + code + 'arr[x]%s = *a;' % sub, post=lambda e, at=at: [('element %d' % j, eq(y, chain(e, n, lambda i: eq(at(e, i), const(j, 32)), e['a'], old))) for j, (y, old) in enumerate(zip(e.out['mem'], e['mem']))], pre=pre3, opts=h3)

def contracts(cfg, tier):
    cs = []
    few = tier == 'quick' and cfg in ('avx', 'sse42')
    for v in vecs(cfg):
        if few and v.abi == 'Scalar': continue
        for un in MT[v.ty.name][:2 if few else None]:
            cs += gathers(v, simd_idx('int', v.n), TY[un], '')
            cs += scatters(v, simd_idx('int', v.n), TY[un], '')
        for I in idxs(v, cfg)[1:2 if few else None]:
            cs += list(gathers(v, I, v.ty, '')); cs += scatters(v, I, v.ty, '')
        for I in idxs(v, cfg):
            cs += unbounded(v, I, '')
        cs += structs(v, '')
    return uniq(cs)
STRATEGY = [('Vc_USE_BSF_GATHERS', 'bsf_'), ('Vc_USE_POPCNT_BSF_GATHERS', 'popcnt_')]
def strategy(cfg, tag):
    cs = []
    for v in vecs(cfg):
        if v.abi == 'Scalar': continue
        I = simd_idx('int', v.n)
        cs += [c for c in list(gathers(v, I, v.ty, tag)) + list(scatters(v, I, v.ty, tag)) if 'k' in [p.name for p in c.params]]
    return cs
def groups(tier):
    gs = [Group(c, contracts(c, tier)) for c in cfgs(tier)]
    for c in (['sse42', 'avx'] if tier == 'quick' else cfgs(tier)):
        for d, tag in STRATEGY: gs.append(Group(c, strategy(c, tag), prelude='#define %s 1\n#include <Vc/Vc>\n' % d))
    return gs

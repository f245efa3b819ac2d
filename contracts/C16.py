"""C16: interleaved memory access (de)interleaves without loss."""
from vclib import *
from C11 import pick, Arr

M = 4
def c64(k): return const(k, 64)
def decl(t, ss, name): return 'struct S_%s { %s m[%d]; };' % (name, t.cxx, ss)

def unique(e, n): return [bnot(eq(e['ix'][i], e['ix'][j])) for i in range(n) for j in range(i)]
def slacks(v, ss, nm):
    B = v.ty.bytes; slack = 0
    if v.abi != 'Scalar' and B == 4 and nm % 4 == 3: slack = max(0, nm + 1 - ss)
    if v.abi != 'Scalar' and B == 2 and nm in (3, 5, 6, 7): slack = max(0, (4 if nm == 3 else 8) - ss)
    return slack, 0 if v.abi == 'Avx' and B == 4 and nm == 3 else slack
def interleaved(v, ss, nm, tier):
    """structures of ss members of which the first nm are read or written"""
    t = v.ty; n = v.n; tg = '%s_s%d_n%d' % (v.tag, ss, nm); B = t.bytes; m = max(M, n + 1)
    ix = lambda: P('ix', 'const int *', 's', 32, n, 'in', align=4)
    icode = 'typename %s::IndexType x; x.load(ix, Vc::Unaligned); ' % v.cxx
    refs = 'Vc::tie(' + ', '.join('*r%d' % k for k in range(nm)) + ')'
    outs = [v.p('r%d' % k, 'out') for k in range(nm)]; ins = [v.p('r%d' % k) for k in range(nm)]
    h = {'hints': lambda e: {i: (lambda rng: rng.randrange(M)) for i in e['ix']} if 'ix' in e.ini else {e['first']: lambda rng: rng.randrange(2)}}
    def C(suffix, params, body, post, pre, const_=''):
        name = tg + '_' + suffix
        return Contract(name, params, 'using S = %sS_%s; Vc::InterleavedMemoryWrapper<S, %s> w((S *)mem); %s' % (const_, name, v.cxx, body), post=post, pre=pre, decl=decl(t, ss, name), opts=dict(h, selftest=False) if 'exact' in suffix else h)
    # the load networks of the SSE and AVX implementations read 4 (or 8) members at a time: elements known to be read behind the last structure (known finding)
    slack, sslack = slacks(v, ss, nm)
    inr = lambda mm: (lambda e: [T.ult(i, const(mm, 32)) for i in e['ix']])
    val = lambda e, mm, k, i: pick([e['mem'][j * ss + k] for j in range(mm)], i)
    rd = lambda mm: (lambda e: [('member %d, lane %d' % (k, i), eq(e.out['r%d' % k][i], val(e, mm, k, e['ix'][i]))) for k in range(nm) for i in range(n)])
    # indexed: the values of the members (behind the array only the known slack may be read), and separately that nothing behind the array is read
    yield C('gather', [v.arr('mem', n=M * ss + slack), ix()] + outs, icode + refs + ' = w[x];', rd(M), inr(M))
    if slack: yield C('gather_exact', [v.arr('mem', n=M * ss), ix()] + outs, icode + refs + ' = w[x];', lambda e: [], inr(M))
    if ss == nm: yield C('cgather', [v.arr('mem', n=M * ss + slack), ix()] + outs, icode + refs + ' = w.gather(x);', rd(M), inr(M), 'const ')
    if nm in (2, 3):
        yield C('tuple', [v.arr('mem', n=M * ss + slack), ix()] + outs, icode + 'std::tuple<%s> q = w[x]; ' % ', '.join([v.cxx] * nm) + ' '.join('*r%d = std::get<%d>(q);' % (k, k) for k in range(nm)), rd(M), inr(M))
    def wr(mm, at):
        def post(e):
            g = []
            for j in range(mm):
                for k in range(ss):
                    x = e['mem'][j * ss + k]
                    if k < nm:
                        for i in range(n): x = ite(at(e, i, j), e['r%d' % k][i], x)
                    g.append(('member %d of structure %d' % (k, j), eq(e.out['mem'][j * ss + k], x)))
            return g
        return post
    if n <= M or v.abi == 'Scalar' or n == 8:
        mm = m if n > 1 else M
        yield C('scatter', [v.arr('mem', 'inout', n=mm * ss), ix()] + ins, icode + 'w[x] = ' + refs + ';', wr(mm, lambda e, i, j: eq(e['ix'][i], const(j, 32))), lambda e: inr(mm)(e) + unique(e, n))
    # successive
    F = V('first', 'unsigned long', 64, 'u'); k = n + 2; f3 = lambda e: [T.ult(e['first'], c64(3))]
    sv = lambda e, q, i: pick([e['mem'][(j + i) * ss + q] for j in range(3)], e['first'])
    sp = lambda e: [('member %d, lane %d' % (q, i), eq(e.out['r%d' % q][i], sv(e, q, i))) for q in range(nm) for i in range(n)]
    yield C('succ', [F, v.arr('mem', n=k * ss + sslack)] + outs, refs + ' = w[first];', sp, f3)
    if sslack: yield C('succ_exact', [F, v.arr('mem', n=k * ss)] + outs, refs + ' = w[first];', lambda e: [], f3)
    yield C('succ_write', [F, v.arr('mem', 'inout', n=k * ss)] + ins, 'w[first] = ' + refs + ';', wr(k, lambda e, i, j: eq(e['first'], c64((j - i) & (2**64-1))) if 0 <= j - i < 3 else FALSE), f3)

def unbounded(v, ss, nm):
    """arrays of any number of structures: every index of a structure whose first member has a number that fits the index type"""
    t = v.ty; n = v.n; tg = '%s_s%d_n%d_any' % (v.tag, ss, nm); B = t.bytes
    slack = slacks(v, ss, nm)[0]
    N = V('n', 'unsigned long', 64, 'u'); ix = P('ix', 'const int *', 's', 32, n, 'in', align=4)
    mem = lambda mode='in', extra=0: A('mem', ('const %s *' if mode == 'in' else '%s *') % t.cxx, mode, align=B, size=lambda e: T.add(T.mul(e['n'], c64(ss * B)), c64(extra * B)))
    def pre(e): return [T.ult(e['n'], c64((1 << 31) // ss))] + [T.ult(T.sext(i, 64), e['n']) for i in e['ix']]
    off = lambda i, k: T.add(T.mul(T.sext(i, 64) if i.w == 32 else i, c64(ss * B)), c64(k * B))
    refs = 'Vc::tie(' + ', '.join('*r%d' % k for k in range(nm)) + ')'
    def hints(e):
        h = {e['n']: lambda r: r.choice([9, 12])}
        if 'q' in e.ini: h[e['q']] = lambda r: r.randrange(9)
        if 'first' in e.ini: h[e['first']] = lambda r: r.randrange(2)
        if 'ix' in e.ini:
            for x in e['ix']: h[x] = lambda r: r.randrange(9)
        return h
    def C(suffix, params, body, post, pre):
        name = tg + '_' + suffix
        return Contract(name, params, 'using S = S_%s; Vc::InterleavedMemoryWrapper<S, %s> w((S *)mem); %s' % (name, v.cxx, body), post=post, pre=pre, decl=decl(t, ss, name), opts={'hints': hints, 'selftest': False})
    icode = 'typename %s::IndexType x; x.load(ix, Vc::Unaligned); ' % v.cxx
    yield C('gather', [N, mem(extra=slack), ix] + [v.p('r%d' % k, 'out') for k in range(nm)], icode + refs + ' = w[x];',
            lambda e: [('member %d, lane %d' % (k, i), eq(e.out['r%d' % k][i], T.aselect(e['mem'], off(e['ix'][i], k), B))) for k in range(nm) for i in range(n)], pre)
    q = V('q', 'unsigned long', 64, 'u')
    if ss > 8: return
    F = V('first', 'unsigned long', 64, 'u')
    fpre = lambda e: [T.ult(e['n'], c64((1 << 31) // ss)), T.ule(c64(n), e['n']), T.ule(e['first'], T.sub(e['n'], c64(n)))]
    yield C('succ', [N, F, mem(extra=slacks(v, ss, nm)[1])] + [v.p('r%d' % k, 'out') for k in range(nm)], refs + ' = w[first];',
            lambda e: [('member %d, lane %d' % (k, i), eq(e.out['r%d' % k][i], T.aselect(e['mem'], off(T.add(e['first'], c64(i)), k), B))) for k in range(nm) for i in range(n)], fpre)
    if n > 8 or t.bytes != 4 or nm > 2 or ss > 2: return
    def spost(e):
        for k in range(ss):
            x = T.aselect(e['mem'], off(e['q'], k), B)
            if k < nm:
                for i in range(n): x = ite(eq(T.add(e['first'], c64(i)), e['q']), e['r%d' % k][i], x)
            yield 'member %d of any structure' % k, eq(T.aselect(e.out['mem'], off(e['q'], k), B), x)
    yield C('succ_write', [N, F, q, mem('inout')] + [v.p('r%d' % k) for k in range(nm)], 'w[first] = ' + refs + ';', spost, lambda e: fpre(e) + [T.ult(e['q'], e['n'])])

DE = {'float': ['float', 'ushort', 'short'], 'double': ['double'], 'int': ['int', 'short'], 'uint': ['uint', 'ushort'], 'short': ['short'], 'ushort': ['ushort']}
def others(v):
    t = v.ty; n = v.n
    for u in DE[t.name] if v.abi != 'Scalar' else []:
        U = TY[u]
        for f, al in (('Vc::Unaligned', U.bytes), ('Vc::Aligned', v.align), ('', v.align)):
            yield Contract('%s_deinterleave_%s_%s' % (v.tag, u, f.replace('Vc::', '') or 'default'), [v.p('a', 'out'), v.p('b', 'out'), v.arr('mem', n=2 * n, ty=U, align=al)], 'Vc::deinterleave(a, b, mem%s);' % (f and ', ' + f),
                post=lambda e, U=U: ew('first', e.out['a'], [to_ty(x, U, t) for x in e['mem'][0::2]]) + ew('second', e.out['b'], [to_ty(x, U, t) for x in e['mem'][1::2]]))
    il = lambda e: [y for p in zip(e['a'], e['b']) for y in p]
    yield Contract(v.tag + '_interleave', [v.p('a'), v.p('b'), v.p('x', 'out'), v.p('y', 'out')], 'auto r = Vc::interleave(*a, *b); *x = r.first; *y = r.second;', post=lambda e: ew('first', e.out['x'], il(e)[:n]) + ew('second', e.out['y'], il(e)[n:]))
def transposes(cfg):
    for v in vecs(cfg):
        if (v.abi, v.ty.name) == ('Scalar', 'float'): ks = [(1, 1)]
        elif (v.abi, v.ty.name) == ('Sse', 'float'): ks = [(4, 4)]
        else: continue
        for l, r in ks:
            yield Contract('%s_transpose_%d_%d' % (v.tag, l, r), [v.p('a%d' % i) for i in range(r)] + [v.p('o%d' % i, 'out') for i in range(l)],
                'Vc::tie(%s) = Vc::transpose(%s);' % (', '.join('*o%d' % i for i in range(l)), ', '.join('*a%d' % i for i in range(r))),
                post=lambda e, l=l, r=r: [('row %d, column %d' % (i, j), eq(e.out['o%d' % i][j], e['a%d' % j][i])) for i in range(l) for j in range(r)])
    for t in ('float',) + (('int', 'double', 'ushort') if cfg == 'scalar' else ()):
        A = Arr(t, 4)
        body = 'using A = %s; ' % A.V + ' '.join('A x%d; x%d.load(a%d, Vc::Unaligned);' % (i, i, i) for i in range(4)) + ' A y0, y1, y2, y3; Vc::tie(y0, y1, y2, y3) = Vc::transpose(x0, x1, x2, x3); ' + ' '.join('y%d.store(o%d, Vc::Unaligned);' % (i, i) for i in range(4))
        yield Contract(A.tag + '_transpose', [A.a('a%d' % i) for i in range(4)] + [A.a('o%d' % i, 'out') for i in range(4)], body,
            post=lambda e: [('row %d, column %d' % (i, j), eq(e.out['o%d' % i][j], e['a%d' % j][i])) for i in range(4) for j in range(4)])

UNB = [(2, 2), (3, 3), (8, 8), (17, 2)]
def contracts(cfg, tier):
    cs = []
    for v in vecs(cfg):
        if tier == 'quick': shapes = [(k, k) for k in range(2, 9)] + [(5, 3), (8, 7), (17, 2)]
        else: shapes = [(s, k) for s in range(2, 9) for k in range(2, s + 1)] + [(9, 8), (16, 8), (17, 4)]
        if tier == 'quick' and (v.abi == 'Scalar' or cfg in ('avx', 'sse42')) : shapes = [(2, 2), (3, 3), (5, 5), (8, 8), (5, 3)]
        for s, k in shapes: cs += interleaved(v, s, k, tier)
        if cfg in ('avx2', 'sse2') or tier != 'quick':
            for s, k in UNB: cs += unbounded(v, s, k)
        cs += others(v)
    return uniq(cs + list(transposes(cfg)))
def groups(tier): return [Group(c, contracts(c, tier)) for c in cfgs(tier)]

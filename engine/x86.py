"""Semantics of the LLVM generic and x86 intrinsics, libm functions and inline assembly Vc uses."""
import re
import term as T
from term import const, conj, disj, bnot, ite, concat, TRUE, FALSE
relane = None
Unsupported = None

def L(f, *vs):
    if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
    return f(*vs)
def smax(a, b): return ite(T.slt(a, b), b, a)
def smin(a, b): return ite(T.slt(a, b), a, b)
def umax(a, b): return ite(T.ult(a, b), b, a)
def umin(a, b): return ite(T.ult(a, b), a, b)
def iabs(a): return ite(T.msb(a), T.neg(a), a)
def xmin(a, b): return ite(T.flt(a, b), a, b)      # minps: second operand unless a<b
def xmax(a, b): return ite(T.flt(b, a), a, b)
CMP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']
def cmpmask(a, b, imm):
    imm &= 31
    p = CMP[imm & 15]
    # predicates 4..7: NEQ_UQ, NLT_US, NLE_US, ORD ; 9: NGE -> ult, 10: NGT -> ule
    return T.fcmp(p, a, b)
def m2v(c, w): return ite(c, const(-1, w), const(0, w))
def sat_s(a, w):
    lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
    return ite(T.slt(a, const(lo, a.w)), const(lo, w), ite(T.slt(const(hi, a.w), a), const(hi, w), T.trunc(a, w)))
def sat_u(a, w):
    hi = (1 << w) - 1
    return ite(T.msb(a), const(0, w), ite(T.slt(const(hi, a.w), a), const(hi, w), T.trunc(a, w)))
def pack(a, b, f, w):
    """per 128-bit lane"""
    per = 128 // a[0].w
    out = []
    for g in range(len(a) // per):
        out += [f(x, w) for x in a[g*per:(g+1)*per]] + [f(x, w) for x in b[g*per:(g+1)*per]]
    return out
def shift_vec(f, a, cnt, w):
    c = concat(*reversed(relane(cnt, cnt[0].w)))
    c = T.extract(c, 63, 0)
    return [shift_cnt(f, x, c, w) for x in a]
def shift_cnt(f, x, c, w):
    """shift by a wide count; counts >= width give 0 or the sign"""
    if c.op == 'const':
        return f(x, const(min(c.k, w), w if w >= 8 else 8)) if c.k < w else (const(0, w) if f is not T.ashr else T.sext(T.msb(x), w))
    small = T.ult(c, const(w, c.w))
    cw = T.trunc(c, w) if c.w > w else T.zext(c, w)
    over = const(0, w) if f is not T.ashr else T.sext(T.msb(x), w)
    if f is T.ashr:
        return ite(small, T.ashr(x, cw), over)
    return ite(small, f(x, cw), over)
def rnd_mode(imm):
    return {0: 'rne', 1: 'rdn', 2: 'rup', 3: 'rtz'}[imm & 3] if not imm & 4 else 'rne'

def intrinsic(ex, st, n, v, args, I):
    p = n.split('.')
    if p[1] == 'x86': return x86i(ex, st, n[9:], v, I)
    g = p[1]
    if g == 'ctpop': return L(T.ctpop, v[0])
    if g in ('cttz', 'ctlz'):
        f = T.cttz if g == 'cttz' else T.ctlz
        zp = v[1].k
        return L(lambda x: f(x, T.fresh('poison-' + g, x.w) if zp else const(x.w, x.w)), v[0])
    if g == 'bswap': return L(lambda x: concat(*[T.extract(x, 8*i+7, 8*i) for i in range(x.w // 8)]), v[0])
    if g == 'bitreverse': return L(lambda x: concat(*[T.extract(x, i, i) for i in range(x.w)]), v[0])
    if g == 'abs': return L(iabs, v[0])
    if g == 'smax': return L(smax, v[0], v[1])
    if g == 'smin': return L(smin, v[0], v[1])
    if g == 'umax': return L(umax, v[0], v[1])
    if g == 'umin': return L(umin, v[0], v[1])
    if g == 'fabs': return L(T.fabs, v[0])
    if g == 'sqrt': return L(T.fsqrt, v[0])
    if g == 'floor': return L(lambda x: T.fround(x, 'rdn'), v[0])
    if g == 'ceil': return L(lambda x: T.fround(x, 'rup'), v[0])
    if g == 'trunc': return L(lambda x: T.fround(x, 'rtz'), v[0])
    if g in ('rint', 'nearbyint', 'roundeven'): return L(lambda x: T.fround(x, 'rne'), v[0])
    if g == 'round': return L(lambda x: T.fround(x, 'rna'), v[0])
    if g == 'copysign': return L(lambda x, y: concat(T.msb(y), T.extract(x, x.w-2, 0)), v[0], v[1])
    if g == 'fma': return L(T.ffma, v[0], v[1], v[2])
    if g == 'fmuladd': return L(lambda a, b, c: T.fadd(T.fmul(a, b), c), v[0], v[1], v[2])
    if g in ('minnum', 'maxnum'):
        f = xmin if g == 'minnum' else xmax
        return L(lambda a, b: ite(T.fnan(a), b, ite(T.fnan(b), a, f(a, b))), v[0], v[1])
    if g in ('fshl', 'fshr'):
        def fs(a, b, c):
            if c.op != 'const': raise Unsupported(n)
            k = c.k % a.w
            x = concat(a, b)
            return T.extract(x, 2*a.w-1-k, a.w-k) if g == 'fshl' else T.extract(x, a.w-1+k, k)
        return L(fs, v[0], v[1], v[2])
    if g in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and p[2] == 'with':
        a, b = v; w = a.w
        e = T.zext if g[0] == 'u' else T.sext
        W = 2*w if g[1:] == 'mul' else w + 1
        f = {'mul': T.mul, 'add': T.add, 'sub': T.sub}[g[1:]]
        r = f(e(a, W), e(b, W)) if not (g == 'umul' and b.op == 'const') else T.mulc(T.zext(a, W), b.k)
        lo = f(a, b)
        if g == 'umul' and b.op == 'const' and b.k:
            return [lo, T.ult(const(((1 << w) - 1) // b.k, w), a)]
        if g == 'umul' and a.op == 'const' and a.k:
            return [lo, T.ult(const(((1 << w) - 1) // a.k, w), b)]
        if g == 'uadd': return [lo, T.ult(lo, a)]
        if g == 'usub': return [lo, T.ult(a, b)]
        return [lo, bnot(T.eq(e(lo, W), r))]
    if g in ('sadd', 'uadd', 'ssub', 'usub') and p[2] == 'sat':
        def f(a, b):
            w = a.w; e = T.zext if g[0] == 'u' else T.sext
            r = (T.add if g[1:] == 'add' else T.sub)(e(a, w+2), e(b, w+2))
            return (sat_s if g[0] == 's' else sat_u)(r, w)
        return L(f, v[0], v[1])
    if g == 'vector' and p[2] == 'reduce':
        f = {'add': T.add, 'mul': T.mul, 'and': T.band, 'or': T.bor, 'xor': T.bxor, 'smax': smax, 'smin': smin, 'umax': umax, 'umin': umin}.get(p[3])
        if f is None: raise Unsupported(n)
        r = v[0][0]
        for x in v[0][1:]: r = f(r, x)
        return r
    if g in ('powi', 'pow', 'exp', 'exp2', 'log', 'log2', 'log10', 'sin', 'cos'):
        ex.trusted.add('libm ' + g)
        return L(lambda *a: T.uf('libm:' + g, a[0].w, *a), *v)
    if g == 'is': return L(lambda x: fpclass_test(x, v[1].k), v[0])
    if g == 'ldexp': return LIBM['ldexp' if v[0].w == 64 else 'ldexpf'](ex, st, v)
    if g == 'frexp':
        f, e = frexp_spec(v[0]); ee, m = fclass(v[0])
        return [f, ite(T.eq(ee, const(-1, ee.w)), T.fresh('frexp-exp', 32), e)]
    if len(p) > 3 and p[3] == 'overflow' and p[2] == 'with':
        a, b = v[0], v[1]; w = a.w; kind, sg = g[1:], g[0] == 's'
        W = 2 * w
        ext = T.sext if sg else T.zext
        r = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[kind](ext(a, W), ext(b, W))
        lo = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[kind](a, b)
        return [lo, bnot(T.eq(r, ext(lo, W)))]
    if g == 'eh': return const(0, 32)
    raise Unsupported('intrinsic %s' % n)

def fpclass_test(x, mask):
    w = x.w; eb = T.FMT[w][0]; mb = w - 1 - eb
    e = T.extract(x, w - 2, mb); m = T.extract(x, mb - 1, 0); s = T.msb(x)
    e1 = T.eq(e, const(-1, eb)); e0 = T.eq(e, const(0, eb)); m0 = T.eq(m, const(0, mb))
    q = T.extract(x, mb - 1, mb - 1)
    ns = bnot(s)
    cls = [conj(e1, bnot(m0), bnot(q)), conj(e1, q), conj(e1, m0, s), conj(bnot(e1), bnot(e0), s), conj(e0, bnot(m0), s), conj(e0, m0, s),
           conj(e0, m0, ns), conj(e0, bnot(m0), ns), conj(bnot(e1), bnot(e0), ns), conj(e1, m0, ns)]
    if mask & 3 == 3: cls[0] = conj(e1, bnot(m0)); cls[1] = FALSE
    if mask & 0x204 == 0x204: cls[2] = conj(e1, m0); cls[9] = FALSE
    if mask == 0x1f8: return bnot(e1)
    return disj(*[c for i, c in enumerate(cls) if mask >> i & 1])

def x86i(ex, st, n, v, I):
    m = n.split('.')
    op = '.'.join(m[1:])
    # strip width suffixes
    b = re.sub(r'\.(128|256)$', '', op)
    s = m[0]
    if b in ('min.ps', 'min.pd'): return L(xmin, v[0], v[1])
    if b in ('max.ps', 'max.pd'): return L(xmax, v[0], v[1])
    if b in ('min.ss', 'min.sd'): return [xmin(v[0][0], v[1][0])] + v[0][1:]
    if b in ('max.ss', 'max.sd'): return [xmax(v[0][0], v[1][0])] + v[0][1:]
    if b in ('cmp.ps', 'cmp.pd'):
        return [m2v(cmpmask(x, y, v[2].k), x.w) for x, y in zip(v[0], v[1])]
    if b in ('cmp.ss', 'cmp.sd'):
        return [m2v(cmpmask(v[0][0], v[1][0], v[2].k), v[0][0].w)] + v[0][1:]
    mm = re.match(r'(u?)comi(eq|lt|le|gt|ge|neq)\.(ss|sd)$', b)
    if mm:
        pr = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une'}[mm.group(2)]
        return T.zext(T.fcmp(pr, v[0][0], v[1][0]), 32)
    if b in ('rcp.ps', 'rsqrt.ps'):
        ex.trusted.add(b); return [T.uf('x86:' + b, 32, x) for x in v[0]]
    if b in ('rcp.ss', 'rsqrt.ss'):
        ex.trusted.add(b[:-2] + 'ps'); return [T.uf('x86:' + b[:-2] + 'ps', 32, v[0][0])] + v[0][1:]
    if b in ('movmsk.ps', 'movmsk.pd'):
        return T.zext(concat(*[T.msb(x) for x in reversed(v[0])]), 32)
    if b == 'pmovmskb':
        x = concat(*[T.msb(y) for y in reversed(v[0])])
        return T.zext(x, 32)
    if b in ('cvttps2dq', 'cvtt.ps2dq'): return [T.fptosi(x, 32) for x in v[0]]
    if b in ('cvtps2dq', 'cvt.ps2dq'): return [T.fptosi(x, 32, 'rne') for x in v[0]]
    if b in ('cvttpd2dq', 'cvtt.pd2dq'):
        r = [T.fptosi(x, 32) for x in v[0]]
        return r + [const(0, 32)] * (I.ty.n - len(r))
    if b in ('cvtpd2dq', 'cvt.pd2dq'):
        r = [T.fptosi(x, 32, 'rne') for x in v[0]]
        return r + [const(0, 32)] * (I.ty.n - len(r))
    if b in ('cvtpd2ps', 'cvt.pd2.ps'):
        r = [T.fcvt(x, 32) for x in v[0]]
        return r + [const(0, 32)] * (I.ty.n - len(r))
    mm = re.match(r'cvt(t?)s([sd])2si(64)?$', b)
    if mm:
        return T.fptosi(v[0][0], 64 if mm.group(3) else 32, 'rtz' if mm.group(1) else 'rne')
    if b == 'cvtsd2ss': return [T.fcvt(v[1][0], 32)] + v[0][1:]
    if b == 'cvtss2sd': return [T.fcvt(v[1][0], 64)] + v[0][1:]
    if b == 'packsswb': return pack(v[0], v[1], sat_s, 8)
    if b == 'packssdw': return pack(v[0], v[1], sat_s, 16)
    if b == 'packuswb': return pack(v[0], v[1], sat_u, 8)
    if b == 'packusdw': return pack(v[0], v[1], sat_u, 16)
    if b == 'pmadd.wd':
        return [T.add(T.mul(T.sext(v[0][2*i], 32), T.sext(v[1][2*i], 32)), T.mul(T.sext(v[0][2*i+1], 32), T.sext(v[1][2*i+1], 32))) for i in range(len(v[0])//2)]
    if b == 'pmulh.w': return [T.extract(T.mul(T.sext(x, 32), T.sext(y, 32)), 31, 16) for x, y in zip(v[0], v[1])]
    if b == 'pmulhu.w': return [T.extract(T.mul(T.zext(x, 32), T.zext(y, 32)), 31, 16) for x, y in zip(v[0], v[1])]
    if b == 'psad.bw':
        out = []
        for g in range(len(v[0]) // 8):
            r = const(0, 64)
            for x, y in zip(v[0][8*g:8*g+8], v[1][8*g:8*g+8]):
                d = ite(T.ult(x, y), T.sub(y, x), T.sub(x, y))
                r = T.add(r, T.zext(d, 64))
            out.append(r)
        return out
    mm = re.match(r'ps(ll|rl|ra)(i?)\.([wdq])$', b)
    if mm:
        f = {'ll': T.shl, 'rl': T.lshr, 'ra': T.ashr}[mm.group(1)]
        w = {'w': 16, 'd': 32, 'q': 64}[mm.group(3)]
        if mm.group(2): return [shift_cnt(f, x, v[1], w) for x in v[0]]
        return shift_vec(f, v[0], v[1], w)
    mm = re.match(r'ps(ll|rl|ra)v\.([dq])$', b)
    if mm:
        f = {'ll': T.shl, 'rl': T.lshr, 'ra': T.ashr}[mm.group(1)]
        return [shift_cnt(f, x, c, x.w) for x, c in zip(v[0], v[1])]
    if b in ('hadd.ps', 'hadd.pd', 'hsub.ps', 'hsub.pd'):
        f = T.fadd if b[1:4] == 'add' else T.fsub
        return hop(v[0], v[1], f)
    if b in ('phadd.w', 'phadd.d'): return hop(v[0], v[1], T.add)
    if b in ('phsub.w', 'phsub.d'): return hop(v[0], v[1], T.sub)
    if b in ('addsub.ps', 'addsub.pd'):
        return [(T.fadd if i & 1 else T.fsub)(x, y) for i, (x, y) in enumerate(zip(v[0], v[1]))]
    if b.startswith('psign.'):
        return [ite(T.msb(y), T.neg(x), ite(T.eq(y, const(0, y.w)), const(0, x.w), x)) for x, y in zip(v[0], v[1])]
    if b == 'pshuf.b':
        out = []
        for g in range(len(v[0]) // 16):
            src = v[0][16*g:16*g+16]
            for c in v[1][16*g:16*g+16]:
                if c.op == 'const': out.append(const(0, 8) if c.k & 0x80 else src[c.k & 15])
                else:
                    r = src[15]
                    lo = T.extract(c, 3, 0)
                    for j in range(14, -1, -1): r = ite(T.eq(lo, const(j, 4)), src[j], r)
                    out.append(ite(T.msb(c), const(0, 8), r))
        return out
    if b in ('blendvps', 'blendvpd', 'pblendvb', 'blendv.ps', 'blendv.pd'):
        return [ite(T.msb(c), y, x) for x, y, c in zip(v[0], v[1], v[2])]
    if b in ('round.ps', 'round.pd'):
        mo = rnd_mode(v[1].k); return [T.fround(x, mo) for x in v[0]]
    if b in ('round.ss', 'round.sd'):
        return [T.fround(v[1][0], rnd_mode(v[2].k))] + v[0][1:]
    if b in ('dpps', 'dp.ps', 'dppd'):
        imm = v[2].k; n_ = 2 if b == 'dppd' else 4; out = []
        w = v[0][0].w; z = const(0, w)
        for g in range(len(v[0]) // n_):
            t = [T.fmul(v[0][g*n_+i], v[1][g*n_+i]) if imm >> (4+i) & 1 else z for i in range(n_)]
            s_ = T.fadd(T.fadd(t[0], t[1]), T.fadd(t[2], t[3])) if n_ == 4 else T.fadd(t[0], t[1])
            out += [s_ if imm >> i & 1 else z for i in range(n_)]
        return out
    if b == 'insertps':
        imm = v[2].k; r = list(v[0]); r[imm >> 4 & 3] = v[1][imm >> 6]
        return [const(0, 32) if imm >> i & 1 else r[i] for i in range(4)]
    if b in ('ptestz', 'ptestc', 'ptestnzc', 'ptestz.256', 'ptestc.256', 'ptestnzc.256'):
        zf = conj(*[T.eq(T.band(x, y), const(0, x.w)) for x, y in zip(v[0], v[1])])
        cf = conj(*[T.eq(T.band(bnot(x), y), const(0, x.w)) for x, y in zip(v[0], v[1])])
        return T.zext({'ptestz': zf, 'ptestc': cf, 'ptestnzc': conj(bnot(zf), bnot(cf))}[b.split('.')[0]], 32)
    mm = re.match(r'vtest(z|c|nzc)\.p[sd]$', b)
    if mm:
        zf = conj(*[bnot(conj(T.msb(x), T.msb(y))) for x, y in zip(v[0], v[1])])
        cf = conj(*[bnot(conj(bnot(T.msb(x)), T.msb(y))) for x, y in zip(v[0], v[1])])
        return T.zext({'z': zf, 'c': cf, 'nzc': conj(bnot(zf), bnot(cf))}[mm.group(1)], 32)
    if b.startswith('maskload.'):
        p, mask = v; e = mask[0].w // 8; out = []
        for i, c in enumerate(mask):
            g = T.msb(c)
            out.append(const(0, 8*e) if g is FALSE else ite(g, ex.load_scalar(st, T.add(p, const(i*e, 64)), e, 1, guard=g), const(0, 8*e)))
        return out
    if b.startswith('maskstore.'):
        p, mask, val = v; e = mask[0].w // 8
        for i, c in enumerate(mask):
            g = T.msb(c)
            if g is FALSE: continue
            ex.store_scalar(st, T.add(p, const(i*e, 64)), val[i], 1, guard=None if g is TRUE else g)
        return None
    if b == 'maskmov.dqu':
        val, mask, p = v
        for i, c in enumerate(mask):
            g = T.msb(c)
            if g is FALSE: continue
            ex.store_scalar(st, T.add(p, const(i, 64)), val[i], 1, guard=None if g is TRUE else g)
        return None
    mm = re.match(r'gather\.([dq])\.(d|q|ps|pd)(\.256)?$', op)
    if mm:
        src, p, idx, mask, scale = v
        e = mask[0].w // 8; out = []
        for i in range(I.ty.n):
            g = T.msb(mask[i]) if i < len(idx) else FALSE
            if g is FALSE: out.append(src[i] if i < len(idx) else const(0, 8*e)); continue
            a = T.add(p, T.mulc(T.sext(idx[i], 64), scale.k))
            x = ex.load_scalar(st, a, e, 1, guard=None if g is TRUE else g)
            out.append(ite(g, x, src[i]))
        return out
    if b in ('permd', 'permps'):
        out = []
        for c in v[1]:
            lo = T.extract(c, 2, 0); r = v[0][7]
            for j in range(6, -1, -1): r = ite(T.eq(lo, const(j, 3)), v[0][j], r)
            out.append(r)
        return out
    if b in ('vpermilvar.ps', 'vpermilvar.pd'):
        per = 4 if b[-1] == 's' else 2; out = []
        for i, c in enumerate(v[1]):
            g = i // per * per
            sel = T.extract(c, 1, 0) if per == 4 else T.extract(c, 1, 1)
            r = v[0][g+per-1]
            for j in range(per-2, -1, -1): r = ite(T.eq(sel, const(j, sel.w)), v[0][g+j], r)
            out.append(r)
        return out
    if b in ('movnt.dq', 'movnt.ps', 'movnt.pd', 'ldu.dq'):
        if b == 'ldu.dq': return ex.load(st, v[0], I.ty, 1)
    if b in ('pause', 'sfence', 'lfence', 'mfence', 'vzeroupper', 'vzeroall', 'clflush'): return None
    if op == 'rdtsc': return T.fresh('rdtsc', 64)
    if n == 'rdtsc': return T.fresh('rdtsc', 64)
    if n == 'xgetbv' or n.startswith('xgetbv'): return T.var('xgetbv', 64)
    if n.startswith('bmi.pext') or n.startswith('bmi.pdep'):
        x, mk = v
        if mk.op != 'const': raise Unsupported(n)
        if n.startswith('bmi.pext'):
            bits = [T.extract(x, i, i) for i in range(x.w) if mk.k >> i & 1]
            if not bits: return const(0, x.w)
            return T.zext(concat(*reversed(bits)), x.w)
        bits = []; j = 0
        for i in range(x.w):
            if mk.k >> i & 1: bits.append(T.extract(x, j, j)); j += 1
            else: bits.append(FALSE)
        return concat(*reversed(bits))
    if n.startswith('bmi.bextr'):
        x, c = v
        if c.op != 'const': raise Unsupported(n)
        s_, l_ = c.k & 255, c.k >> 8 & 255
        r = T.lshr(x, const(s_, x.w))
        return T.band(r, const((1 << min(l_, x.w)) - 1, x.w))
    raise Unsupported('intrinsic llvm.x86.%s' % n)
def hop(a, b, f):
    per = 128 // a[0].w; out = []
    for g in range(len(a) // per):
        for x in (a, b):
            for i in range(per // 2): out.append(f(x[g*per+2*i], x[g*per+2*i+1]))
    return out

# ------------------------------------------------------------------ inline assembly
def _scalarize(v):
    return concat(*reversed(v)) if isinstance(v, list) and len(v) > 1 else (v[0] if isinstance(v, list) else v)
def inline_asm(ex, st, text, cons, vals, ty):
    cl = [c for c in cons.split(',') if not c.startswith('~')]
    outs = []; opv = []; k = 0
    for c in cl:
        if c.startswith('=') and '*' not in c: opv.append(None); outs.append(len(opv) - 1)
        elif c.startswith('=*') or c.startswith('=') : opv.append(('mem', vals[k])); k += 1
        else:
            x = vals[k]; k += 1
            opv.append(x)
            if c.isdigit(): opv[int(c)] = x
    tys = []
    if outs:
        tys = ty.fields if ty.kind == 's' else [ty]
    h = getattr(ex, 'asm_hooks', {}).get(text.strip())
    if h: 
        r = h(ex, st, opv, tys)
        return r
    # written bits per output type
    otype = dict(zip(outs, tys))
    reg = {}
    # tied sub operands: e.g. named [bits] are already numbered by clang
    for line in re.split(r'\\0A|\\09|\n', text):
        line = line.strip().replace('$$', '#')
        if not line: continue
        m = re.match(r'(\w+)\s*(.*)$', line)
        op = m.group(1); ops = [o.strip() for o in m.group(2).split(',')] if m.group(2) else []
        def get(o):
            if o.startswith('#'): return const(int(o[1:], 0), 64)
            mm = re.match(r'\$\{?(\d+)(?::\w)?\}?$', o)
            return opv[int(mm.group(1))]
        def put(o, x):
            mm = re.match(r'\$\{?(\d+)(?::\w)?\}?$', o)
            i = int(mm.group(1))
            if isinstance(opv[i], tuple):
                v = _scalarize(x)
                ex.store_scalar(st, opv[i][1], v, 1); return
            opv[i] = x
            for j, c in enumerate(cl):
                if c.isdigit() and int(c) == i: pass
        if op in ('bsf', 'bsfl', 'bsfq', 'tzcnt'):
            x = get(ops[0]); put(ops[1], T.cttz(x, T.fresh('bsf0', x.w)))
        elif op in ('bsr', 'bsrl', 'bsrq'):
            x = get(ops[0])
            r = T.fresh('bsr0', x.w)
            for i in range(x.w): r = ite(T.extract(x, i, i), const(i, x.w), r)
            put(ops[1], r)
        elif op in ('btr', 'btrl'):
            i = get(ops[0]); x = get(ops[1])
            mk = T.shl(const(1, x.w), T.band(T.zext(i, x.w) if i.w < x.w else T.trunc(i, x.w), const(x.w-1, x.w)))
            put(ops[1], T.band(x, bnot(mk)))
        elif op in ('movd', 'vmovd', 'movq', 'vmovq', 'vmovups', 'movups'):
            x = _scalarize(get(ops[0])); d = ops[-1]
            n = {'movd': 32, 'vmovd': 32, 'movq': 64, 'vmovq': 64}.get(op, 128)
            i = int(re.search(r'\d+', d).group())
            x = T.extract(x, min(n, x.w)-1, 0)
            if isinstance(opv[i], tuple): put(d, x)
            else:
                t = otype[i]
                W = t.n * t.elem.bits() if t.kind == 'v' else t.bits()
                x = T.zext(x, W) if W > x.w else T.trunc(x, W)
                put(d, relane([x], t.elem.bits()) if t.kind == 'v' else x)
        elif op in ('pinsrd', 'vpinsrd', 'pinsrq', 'vpinsrq', 'pinsrw', 'vpinsrw'):
            imm = get(ops[0]).k; x = get(ops[1]); d = ops[-1]; base = get(ops[2])
            w = {'d': 32, 'q': 64, 'w': 16}[op[-1]]
            ew = base[0].w
            ls = relane(base, w); ls = list(ls); ls[imm] = T.trunc(x, w)
            put(d, relane(ls, ew))
        elif op in ('punpcklqdq', 'vpunpcklqdq'):
            s = get(ops[0]); d = get(ops[1]); ew = d[0].w
            put(ops[-1], relane([relane(d, 64)[0], relane(s, 64)[0]], ew))
        elif op in ('psllw', 'pslld', 'psllq', 'psrlw', 'psrld', 'psrlq'):
            s = get(ops[0]); d = get(ops[1]); w = {'w': 16, 'd': 32, 'q': 64}[op[-1]]; ew = d[0].w
            f = T.shl if op[3] == 'l' and op[2] == 'l' else (T.shl if op.startswith('psll') else T.lshr)
            put(ops[1], relane(shift_vec(f, relane(d, w), s, w), ew))
        else: raise Unsupported('inline asm %r %r' % (text, cons))
    res = [opv[i] for i in outs]
    if not res: return None
    return res[0] if len(res) == 1 and ty.kind != 's' else res

# ------------------------------------------------------------------ libm
def _u(name):
    def f(ex, st, v):
        ex.trusted.add('libm ' + name)
        w = v[0].w
        return T.uf('libm:' + name.rstrip('f') if w == 32 and name.endswith('f') and name not in ('erf',) else 'libm:' + name, w, *v)
    return f
def _rnd(mode): return lambda ex, st, v: T.fround(v[0], mode)
LIBM = {}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'cbrt', 'sinh', 'cosh', 'tanh'):
    LIBM[_n] = _u(_n); LIBM[_n + 'f'] = _u(_n + 'f')
for _n, _m in (('floor', 'rdn'), ('ceil', 'rup'), ('trunc', 'rtz'), ('rint', 'rne'), ('nearbyint', 'rne'), ('round', 'rna')):
    LIBM[_n] = _rnd(_m); LIBM[_n + 'f'] = _rnd(_m)
for _s in ('', 'f'):
    LIBM['sqrt' + _s] = lambda ex, st, v: T.fsqrt(v[0])
    LIBM['fabs' + _s] = lambda ex, st, v: T.fabs(v[0])
    LIBM['fma' + _s] = lambda ex, st, v: T.ffma(v[0], v[1], v[2])
    LIBM['copysign' + _s] = lambda ex, st, v: concat(T.msb(v[1]), T.extract(v[0], v[0].w-2, 0))
def fclass(x):
    e, s = T.FMT[x.w]
    ex_ = T.extract(x, x.w-2, s-1); m = T.extract(x, s-2, 0)
    return ex_, m
def ldexp_spec(x, n):
    """exact where argument and result are normal; otherwise the value of the uninterpreted libm function"""
    ex_, m = fclass(x); w = x.w
    r = T.add(T.zext(ex_, 34), T.sext(n, 34))
    zero = T.eq(T.extract(x, w - 2, 0), const(0, w - 1)); inf = T.eq(ex_, const(-1, ex_.w))
    ok = conj(bnot(T.eq(ex_, const(0, ex_.w))), T.slt(const(0, 34), r), T.slt(r, const((1 << ex_.w) - 1, 34)))
    return ite(disj(zero, inf), x, ite(ok, concat(T.msb(x), T.trunc(r, ex_.w), m), T.uf('ldexp', w, x, n)))
def frexp_spec(x):
    ex_, m = fclass(x); w = x.w; b = (1 << (ex_.w - 1)) - 1
    z = T.ctlz(m, const(m.w, m.w))
    den = T.eq(ex_, const(0, ex_.w))
    zero = conj(den, T.eq(m, const(0, m.w))); inf = T.eq(ex_, const(-1, ex_.w))
    f = concat(T.msb(x), const(b - 1, ex_.w), ite(den, T.shl(m, T.add(z, const(1, m.w))), m))
    n = ite(den, T.sub(const(1 - b, 32), T.trunc(z, 32) if z.w > 32 else T.zext(z, 32)), T.sub(T.zext(ex_, 32), const(b - 1, 32)))
    return ite(disj(zero, inf), x, f), ite(zero, const(0, 32), n)
LIBM['ldexp'] = LIBM['ldexpf'] = lambda ex, st, v: ldexp_spec(v[0], v[1])
def _frexp(ex, st, v):
    f, e = frexp_spec(v[0])
    # the exponent is unspecified for infinities and NaN
    ee, m = fclass(v[0])
    e = ite(T.eq(ee, const(-1, ee.w)), T.fresh('frexp-exp', 32), e)
    ex.store_scalar(st, v[1], e, 4)
    return f
LIBM['frexp'] = LIBM['frexpf'] = _frexp

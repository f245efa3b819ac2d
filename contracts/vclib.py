"""Vector types, ABIs and parameter helpers shared by the property modules."""
import term as T
from term import const, ite, conj, disj, bnot, TRUE, FALSE, eq
from contract import P, A, V, Ret, Contract, fsame, same
from main import Group, CONST, libsrc
import build

class Ty:
    def __init__(self, name, cxx, bits, kind): self.name = name; self.cxx = cxx; self.bits = bits; self.kind = kind; self.bytes = bits // 8
    @property
    def isf(self): return self.kind == 'f'
    @property
    def signed(self): return self.kind in 'fs'
TY = {n: Ty(n, c, b, k) for n, c, b, k in [('double', 'double', 64, 'f'), ('float', 'float', 32, 'f'), ('int', 'int', 32, 's'), ('uint', 'unsigned int', 32, 'u'),
     ('short', 'short', 16, 's'), ('ushort', 'unsigned short', 16, 'u'), ('schar', 'signed char', 8, 's'), ('uchar', 'unsigned char', 8, 'u'), ('char', 'char', 8, 's'), ('long', 'long', 64, 's'), ('ulong', 'unsigned long', 64, 'u')]}
BASE = ['double', 'float', 'int', 'uint', 'short', 'ushort']

class Vec:
    """one Vector<T, Abi> instantiation"""
    def __init__(self, abi, ty):
        self.abi = abi; self.ty = TY[ty] if isinstance(ty, str) else ty
        self.n = {'Scalar': 1, 'Sse': 128 // self.ty.bits, 'Avx': 256 // self.ty.bits}[abi]
        self.cxx = 'Vc::Vector<%s, Vc::VectorAbi::%s>' % (self.ty.cxx, abi)
        self.mask = 'Vc::Mask<%s, Vc::VectorAbi::%s>' % (self.ty.cxx, abi)
        self.tag = '%s_%s' % ({'Scalar': 'sca', 'Sse': 'sse', 'Avx': 'avx'}[abi], self.ty.name)
        self.kind = self.ty.kind; self.bits = self.ty.bits; self.bytes = self.n * self.ty.bytes
        self.align = self.bytes if abi != 'Scalar' else self.ty.bytes
    def p(self, name, mode='in'):
        return P(name, ('const %s *' if mode == 'in' else '%s *') % self.cxx, self.kind, self.bits, self.n, mode, align=self.align)
    def m(self, name, mode='in'):
        ct = ('const %s *' if mode == 'in' else '%s *') % self.mask
        if self.abi == 'Scalar': return P(name, ct, 'b', 8, 1, mode, align=1)
        return P(name, ct, 'm', self.bits, self.n, mode, align=self.align)
    def arr(self, name, mode='in', n=None, align=None, ty=None):
        t = ty or self.ty
        return P(name, ('const %s *' if mode == 'in' else '%s *') % t.cxx, t.kind, t.bits, n or self.n, mode, align=align or t.bytes)
    def with_ty(self, ty): return Vec(self.abi, ty)

def vecs(cfg, abis=None, tys=BASE):
    """Vector types that exist in a configuration"""
    c = build.CONFIGS[cfg]
    r = []
    for abi in (abis or c.abis):
        if abi not in c.abis: continue
        for t in tys:
            if abi == 'Avx' and cfg == 'avx' and t not in ('double', 'float'): continue
            r.append(Vec(abi, t))
    return r

# ------------------------------------------------------------------ scalar semantics
def ew(desc, outs, exp, eqf=T.eq):
    """lane-wise postconditions"""
    assert len(outs) == len(exp), (desc, len(outs), len(exp))
    return [('%s, lane %d' % (desc, i), eqf(o, x)) for i, (o, x) in enumerate(zip(outs, exp))]

def frame(desc, outs, exp): return ew(desc, outs, exp)

def to_ty(t, src, dst):
    """static_cast<dst>(src value)"""
    if src.isf and dst.isf: return T.fcvt(t, dst.bits) if src.bits != dst.bits else t
    if src.isf:
        if dst.signed: return T.fptosi(t, dst.bits)
        return T.fptoui(t, dst.bits)
    if dst.isf: return T.sitofp(t, dst.bits) if src.signed else T.uitofp(t, dst.bits)
    if dst.bits <= src.bits: return T.trunc(t, dst.bits)
    return T.sext(t, dst.bits) if src.signed else T.zext(t, dst.bits)

def fits(x, w, dst):
    """a conversion of the floating-point value x (w bits) to the integer type dst is defined"""
    lo = -(1 << (dst.bits - 1)) if dst.signed else 0
    hi = 1 << (dst.bits - 1 if dst.signed else dst.bits)
    p = {32: 24, 64: 53}[w]
    fc = lambda v: const(T.f2bits(float(v), w), w)
    lower = T.flt(fc(lo - 1), x) if (1 - lo).bit_length() <= p else T.fle(fc(lo), x)
    return conj(lower, T.flt(x, fc(hi)))
def cxx_lit(ty, x): return '%s(%s)' % (ty.cxx, x)

BIN = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}
def scalar_bin(op, ty, a, b):
    if ty.isf:
        return {'+': T.fadd, '-': T.fsub, '*': T.fmul, '/': T.fdiv}[op](a, b)
    w = ty.bits
    if op == '+': return T.add(a, b)
    if op == '-': return T.sub(a, b)
    if op == '*': return T.mul(a, b)
    if op == '&': return T.band(a, b)
    if op == '|': return T.bor(a, b)
    if op == '^': return T.bxor(a, b)
    # operators that are evaluated on the promoted operands
    W = max(32, w)
    ext = T.sext if ty.signed else T.zext
    A_, B_ = ext(a, W), ext(b, W)
    pos = ty.signed or w < 32       # promoted type is signed
    if op == '/': return T.trunc((T.sdiv if ty.signed else T.udiv)(A_, B_) if w == W else (T.sdiv if ty.signed else T.udiv)(A_, B_), w)
    if op == '%': return T.trunc((T.srem if ty.signed else T.urem)(A_, B_), w)
    if op == '<<': return T.trunc(T.shl(A_, B_), w)
    if op == '>>': return T.trunc((T.ashr if ty.signed else T.lshr)(A_, B_), w)
    raise KeyError(op)
def bin_pre(op, ty, a, b):
    """the scalar operator is defined"""
    if ty.isf: return []
    if op in '/%':
        g = [bnot(eq(b, const(0, ty.bits)))]
        if ty.signed and ty.bits >= 32: g.append(bnot(conj(eq(a, const(1 << (ty.bits - 1), ty.bits)), eq(b, const(-1, ty.bits)))))
        return g
    if op in ('<<', '>>'): return [T.ult(b, const(max(32, ty.bits), ty.bits))]
    return []
def scalar_cmp(op, ty, a, b):
    if ty.isf:
        return {'==': T.feq(a, b), '!=': bnot(T.feq(a, b)), '<': T.flt(a, b), '<=': T.fle(a, b), '>': T.flt(b, a), '>=': T.fle(b, a)}[op]
    lt = T.slt if ty.signed else T.ult
    return {'==': eq(a, b), '!=': bnot(eq(a, b)), '<': lt(a, b), '<=': bnot(lt(b, a)), '>': lt(b, a), '>=': bnot(lt(a, b))}[op]
CMP = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}

QUICK_CFGS = ['avx2', 'sse2', 'avx', 'sse42']
ALL_CFGS = ['avx2', 'avx', 'sse42', 'sse41', 'ssse3', 'sse2', 'avx2clang', 'sse2clang']
def cfgs(tier): return QUICK_CFGS if tier == 'quick' else ALL_CFGS
def uniq(cs):
    d = {}
    for c in cs:
        assert c.name not in d, c.name
        d[c.name] = c
    return cs

# ------------------------------------------------------------------ reductions as words of an abelian monoid
def monoid(t, op, units, memo=None):
    """Replaces the operation `op` (floating-point addition, ...) by addition modulo 2^w and its
    units by 0.  A term built from `op`, selections and leaves denotes the sum of its leaves, so two
    such terms are mapped to equal words for all leaf values iff they combine the same leaves equally
    often (up to association and order, which is what a reduction is free to choose)."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None: return r
    if t.op == op: r = T.add(monoid(t.args[0], op, units, memo), monoid(t.args[1], op, units, memo))
    elif t.op == 'ite': r = ite(t.args[0], monoid(t.args[1], op, units, memo), monoid(t.args[2], op, units, memo))
    elif t.op == 'const': r = const(0, t.w) if t.k in units else const(t.k | 1, t.w)
    else:
        # a selection spelled with bit operations
        bs = [v for v in leaf_vars(t) if v.w == 1]
        r = t
        if len(bs) == 1 and t is not bs[0]:
            a, b = T.subst([t], {bs[0]: TRUE})[0], T.subst([t], {bs[0]: FALSE})[0]
            r = ite(bs[0], monoid(a, op, units, memo), monoid(b, op, units, memo))
    memo[t] = r
    return r
def leaf_vars(t):
    seen = set(); out = []; st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if len(seen) > 400: return []
        if x.op == 'var': out.append(x)
        st.extend(x.args)
    return out
def fconst_ok(r, vals, op, w):
    """a concrete floating-point reduction is within the error of some association"""
    from fractions import Fraction
    xs = [v.k for v in vals]
    if any(T.b_isnan(x, w) or T.b_isinf(x, w) for x in xs): return True
    acc = Fraction(0 if op == 'fadd' else 1); mag = Fraction(0 if op == 'fadd' else 1)
    for x in xs:
        f = T.b_frac(x, w)
        if op == 'fadd': acc += f; mag += abs(f)
        else: acc *= f; mag *= abs(f)
    big = Fraction(2) ** (100 if w == 32 else 900)
    if mag > big: return True
    if any(x and not (1 / big < abs(T.b_frac(x, w)) < big) for x in xs): return True
    if op == 'fmul' and mag and mag < 1 / big: return True
    if T.b_isnan(r.k, w) or T.b_isinf(r.k, w): return False
    return abs(T.b_frac(r.k, w) - acc) <= mag * len(xs) * Fraction(2) ** (-22 if w == 32 else -51)
OPUNITS = {('fadd', 32): (0, 1 << 31), ('fadd', 64): (0, 1 << 63), ('fmul', 32): (0x3f800000,), ('fmul', 64): (0x3ff0 << 48,)}
def reduction(r, vals, sel, op, ty):
    """r combines exactly the selected values"""
    w = ty.bits
    if ty.isf:
        if r.op == 'const' and all(v.op == 'const' for v in vals) and all(s.op == 'const' for s in sel):
            return T.boolc(fconst_ok(r, [v for v, s in zip(vals, sel) if s.k], op, w))
        m = monoid(r, op, OPUNITS[op, w])
    elif op == 'fmul':
        if r.op == 'const':
            p = 1
            for v, s in zip(vals, sel): p = p * (v.k if s.k else 1)
            return T.boolc((p - r.k) % (1 << w) == 0)
        m = monoid(r, 'mul', (1,))
    else: m = r
    tot = const(0, w)
    for v, s in zip(vals, sel): tot = T.add(tot, ite(s, v, const(0, w)))
    return eq(m, tot)

"""Hash-consed bit-vector terms with an eager simplifier, and their concrete evaluation.

Every value the verifier handles is a bit-vector term (booleans have width 1, floats are
their IEEE bit patterns, pointers are 64-bit sums base(object)+offset, memory regions of
symbolic size are byte-array terms of width 'A').
"""
import struct, math
from fractions import Fraction

class Term:
    __slots__ = ('op', 'args', 'w', 'k', 'id')
    def __repr__(self):
        return show(self, 6)

_T = {}
_n = [0]
def _mk(op, w, args, k=None):
    key = (op, w, args, k)
    t = _T.get(key)
    if t is None:
        t = Term()
        t.op = op; t.w = w; t.args = args; t.k = k
        _n[0] += 1
        t.id = _n[0]
        _T[key] = t
    return t

def show(t, depth=8):
    if t.op == 'const': return ('0x%x' % t.k if t.k > 9 else str(t.k)) + ':%s' % t.w
    if t.op == 'var': return str(t.k)
    if depth == 0: return '...'
    if t.op == 'lin':
        return '(' + ' + '.join(('%d*' % _sgn(c, t.w) if c != 1 else '') + show(a, depth-1) for c, a in zip(t.k[0], t.args)) + (' + %d' % _sgn(t.k[1], t.w) if t.k[1] else '') + ')'
    if t.op == 'extract': return '%s[%d:%d]' % (show(t.args[0], depth-1), t.k[0], t.k[1])
    return '%s%s(%s)' % (t.op, '' if t.k is None else '.'+str(t.k), ', '.join(show(a, depth-1) for a in t.args))

def _sgn(v, w):
    return v - (1 << w) if w and v >> (w-1) else v
sgn = _sgn

def const(v, w):
    return _mk('const', w, (), v & ((1 << w) - 1))
def var(name, w):
    return _mk('var', w, (), name)
_fresh = [0]
def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)

TRUE = const(1, 1)
FALSE = const(0, 1)
def is_const(t): return t.op == 'const'
def boolc(b): return TRUE if b else FALSE

# ---------------------------------------------------------------- linear sums
def to_lin(t):
    if t.op == 'const': return {}, t.k
    if t.op == 'lin': return dict(zip(t.args, t.k[0])), t.k[1]
    if t.op == 'concat':
        last = t.args[-1]
        if last.op == 'const' and last.k == 0 and t.w > 1:
            k = last.w
            rest = t.args[:-1]
            if len(rest) == 1 and rest[0].op == 'extract' and rest[0].k[1] == 0 and rest[0].args[0].w == t.w:
                d, c = to_lin(rest[0].args[0])
                m = (1 << t.w) - 1
                return {a: (v << k) & m for a, v in d.items()}, (c << k) & m
            if rest[0].op == 'const' and rest[0].k == 0 and rest[0].w >= k:
                inner = concat(const(0, k), *rest)
                return {inner: 1 << k}, 0
            if rest[0].op == 'const' and rest[0].k == 0 and len(rest) > 1:
                inner = concat(const(0, k), *rest)
                return {inner: 1 << k}, 0
    return {t: 1}, 0

def from_lin(d, c, w):
    m = (1 << w) - 1
    c &= m
    items = [(a, v & m) for a, v in d.items() if v & m]
    if not items: return const(c, w)
    if len(items) == 1 and c == 0:
        a, v = items[0]
        if v == 1: return a
        if v & (v-1) == 0:
            k = v.bit_length() - 1
            return concat(extract(a, w-1-k, 0), const(0, k))
    if len(items) == 1 and items[0][1] == m and c == m:
        return bnot(items[0][0])
    items.sort(key=lambda p: p[0].id)
    return _mk('lin', w, tuple(a for a, _ in items), (tuple(v for _, v in items), c))

def add(a, b):
    if a.op == 'const' and a.k == 0: return b
    if b.op == 'const':
        if b.k == 0: return a
        if a.op == 'const': return const(a.k + b.k, a.w)
    if a.w == 1: return bxor(a, b)
    for x, y in ((a, b), (b, a)):
        # decrement that does not borrow from the symbolic part
        if y.op == 'const' and x.op == 'concat' and _isones(y) and x.args[-1].op == 'const' and x.args[-1].k:
            return concat(*x.args[:-1], const(x.args[-1].k - 1, x.args[-1].w))
    da, ca = to_lin(a); db, cb = to_lin(b)
    d = dict(da)
    for t, v in db.items(): d[t] = d.get(t, 0) + v
    return from_lin(d, ca + cb, a.w)
def mulc(a, k):
    d, c = to_lin(a)
    return from_lin({t: v * k for t, v in d.items()}, c * k, a.w)
def neg(a): return mulc(a, -1)
def sub(a, b):
    if a is b: return const(0, a.w)
    return add(a, neg(b))
def mul(a, b):
    if a.op == 'const': return mulc(b, a.k) if a.w > 1 else band(a, b)
    if b.op == 'const': return mulc(a, b.k) if a.w > 1 else band(a, b)
    if a.w == 1: return band(a, b)
    if a.id > b.id: a, b = b, a
    return _mk('mul', a.w, (a, b))

# ---------------------------------------------------------------- slices
def extract(t, hi, lo):
    w = hi - lo + 1
    if w == t.w: return t
    op = t.op
    if op == 'const': return const(t.k >> lo, w)
    if op == 'extract': return extract(t.args[0], hi + t.k[1], lo + t.k[1])
    if op == 'concat':
        pos = t.w
        out = []
        for a in t.args:
            top = pos - 1
            bot = pos - a.w
            if top >= lo and bot <= hi:
                out.append(extract(a, min(hi, top) - bot, max(lo, bot) - bot))
            pos = bot
        return concat(*out)
    if op == 'ite':
        return ite(t.args[0], extract(t.args[1], hi, lo), extract(t.args[2], hi, lo))
    if op == 'not': return bnot(extract(t.args[0], hi, lo))
    if op in ('and', 'or', 'xor'):
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        return f(extract(t.args[0], hi, lo), extract(t.args[1], hi, lo))
    if lo == 0:
        if op == 'lin':
            r = const(t.k[1], w)
            for c, a in zip(t.k[0], t.args): r = add(r, mulc(extract(a, hi, 0), c) if w > 1 else (extract(a, 0, 0) if c & 1 else FALSE))
            return r
        if op == 'mul': return mul(extract(t.args[0], hi, 0), extract(t.args[1], hi, 0))
    return _mk('extract', w, (t,), (hi, lo))

def concat(*args):
    out = []
    for a in args:
        if a.op == 'concat':
            for x in a.args: _cpush(out, x)
        else: _cpush(out, a)
    if len(out) == 1: return out[0]
    # all pieces select on the same condition
    c = None; ok = False
    for a in out:
        if a.op == 'ite':
            if c is None: c = a.args[0]; ok = True
            elif c is not a.args[0]: ok = False; break
        elif a.op == 'const': continue
        else: ok = False; break
    if ok and c is not None:
        # only when there is something to gain: every piece ite/const
        return ite(c, concat(*[a.args[1] if a.op == 'ite' else a for a in out]),
                   concat(*[a.args[2] if a.op == 'ite' else a for a in out]))
    return _mk('concat', sum(a.w for a in out), tuple(out))

def _cpush(out, x):
    if out:
        p = out[-1]
        if p.op == 'const' and x.op == 'const':
            out[-1] = const((p.k << x.w) | x.k, p.w + x.w); return
        if p.op == 'extract' and x.op == 'extract' and p.args[0] is x.args[0] and p.k[1] == x.k[0] + 1:
            out[-1] = extract(p.args[0], p.k[0], x.k[1]); return
        if p.op == 'extract' and p.k[1] >= x.w and x.op != 'const' and p.args[0].op not in ('var', 'concat') and extract(p.args[0], p.k[1] - 1, p.k[1] - x.w) is x:
            out[-1] = extract(p.args[0], p.k[0], p.k[1] - x.w); return      # the low bits of a sum are the sum of the low bits
        # pieces of wider terms that extraction pushed through not/ite/... are merged when cheap
        if p.op == 'not' and x.op == 'not':
            q = []
            _cpush(q, p.args[0]); _cpush(q, x.args[0])
            if len(q) == 1:
                out[-1] = bnot(q[0]); return
        if p.op == 'ite' and x.op == 'ite' and p.args[0] is x.args[0]:
            out[-1] = ite(p.args[0], concat(p.args[1], x.args[1]), concat(p.args[2], x.args[2])); return
        if p.w == 1 and x.op == 'ite' and x.w > 1 and p.op in ('band', 'bor') and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            # a one-bit selection with a constant arm was turned into a conjunction or disjunction
            c = x.args[0]; nc = bnot(c)
            if c in p.args or nc in p.args:
                rest = [y for y in p.args if y is not c and y is not nc]
                v = (conj if p.op == 'band' else disj)(*rest); k = FALSE if p.op == 'band' else TRUE
                pos = (c in p.args) == (p.op == 'band')       # v is selected where c holds
                out[-1] = ite(c, concat(v if pos else k, x.args[1]), concat(k if pos else v, x.args[2])); return
        if p.op == x.op and p.op in ('and', 'or', 'xor') and p.w > 0:
            for i in (0, 1):
                q0 = []; _cpush(q0, p.args[0]); _cpush(q0, x.args[i])
                if len(q0) != 1: continue
                q1 = []; _cpush(q1, p.args[1]); _cpush(q1, x.args[1-i])
                if len(q1) != 1: continue
                f = {'and': band, 'or': bor, 'xor': bxor}[p.op]
                out[-1] = f(q0[0], q1[0]); return
    out.append(x)

def zext(t, w):
    if w == t.w: return t
    return concat(const(0, w - t.w), t)
def msb(t): return extract(t, t.w - 1, t.w - 1)
def sext(t, w):
    if w == t.w: return t
    if t.w == 1: return ite(t, const(-1, w), const(0, w))
    s = msb(t)
    if s.op == 'const': return concat(const(-1 if s.k else 0, w - t.w), t)
    if t.op == 'concat' and t.args[0].op == 'ite' and t.args[0].args[0] is s:
        pass
    return concat(ite(s, const(-1, w - t.w), const(0, w - t.w)), t)
def trunc(t, w): return extract(t, w - 1, 0)

# ---------------------------------------------------------------- bitwise
def bnot(t):
    if t.op == 'const': return const(~t.k, t.w)
    if t.op == 'not': return t.args[0]
    if t.op == 'ite': return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    if t.op == 'concat': return concat(*[bnot(a) for a in t.args])
    if t.op == 'band' : return _mk('not', 1, (t,))
    return _mk('not', t.w, (t,))

def _boundaries(t):
    b = set(); pos = t.w
    if t.op == 'concat':
        for a in t.args:
            pos -= a.w
            b.add(pos)
    b.discard(0)
    return b
def _runs(k, w):
    b = set(); prev = k & 1
    for i in range(1, w):
        cur = (k >> i) & 1
        if cur != prev: b.add(i)
        prev = cur
    return b
def _has_const_piece(t):
    return t.op == 'concat' and any(a.op == 'const' for a in t.args)

def _split2(f, a, b):
    """pointwise split along constant runs / concat boundaries, or None"""
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        r = _runs(b.k, b.w)
        if len(r) > 4: return None
        bd = r
        if not r and a.op != 'concat': return None
        if a.op == 'concat' and (r or _has_const_piece(a)): bd = _boundaries(a)      # a piece that selects is kept whole
    elif _has_const_piece(a) or _has_const_piece(b):
        bd = _boundaries(a) | _boundaries(b)
    else: return None
    if not bd or len(bd) > 64: return None
    cuts = [0] + sorted(bd) + [a.w]
    return concat(*[f(extract(a, cuts[i+1]-1, cuts[i]), extract(b, cuts[i+1]-1, cuts[i])) for i in range(len(cuts)-2, -1, -1)])

def _is_maskite(t):
    if t.op != 'ite': return False
    a, b = t.args[1], t.args[2]
    return a.op == 'const' and b.op == 'const' and ((a.k == 0 and b.k == (1 << t.w) - 1) or (b.k == 0 and a.k == (1 << t.w) - 1))

def _isz(t): return t.op == 'const' and t.k == 0
def _isones(t): return t.op == 'const' and t.k == (1 << t.w) - 1

def band(a, b):
    if a is b: return a
    if a.w == 1: return conj(a, b)
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        if a.op == 'const': return const(a.k & b.k, a.w)
        if b.k == 0: return b
        if _isones(b): return a
    for x, y in ((a, b), (b, a)):
        if x.op == 'not' and x.args[0] is y: return const(0, a.w)
        if _is_maskite(x):
            c, t, e = x.args
            return ite(c, y if t.k else t, y if e.k else e)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op == 'const':
            if x.args[1].op == 'const' or x.args[2].op == 'const':
                return ite(x.args[0], band(x.args[1], y), band(x.args[2], y))
        if x.op == 'ite' and y.op == 'ite' and x.args[0] is y.args[0]:
            return ite(x.args[0], band(x.args[1], y.args[1]), band(x.args[2], y.args[2]))
        if x.op == 'ite' and (_isz(x.args[1]) or _isz(x.args[2])):
            return ite(x.args[0], band(x.args[1], y), band(x.args[2], y))
    s = _split2(band, a, b)
    if s is not None: return s
    if a.id > b.id: a, b = b, a
    return _mk('and', a.w, (a, b))

def bor(a, b):
    if a is b: return a
    if a.w == 1: return disj(a, b)
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        if a.op == 'const': return const(a.k | b.k, a.w)
        if b.k == 0: return a
        if _isones(b): return b
    for x, y in ((a, b), (b, a)):
        if x.op == 'not' and x.args[0] is y: return const(-1, a.w)
        if _is_maskite(x):
            c, t, e = x.args
            return ite(c, t if t.k else y, e if e.k else y)
    if a.op == 'ite' and b.op == 'ite':
        if a.args[0] is b.args[0]:
            return ite(a.args[0], bor(a.args[1], b.args[1]), bor(a.args[2], b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op == 'const' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], bor(x.args[1], y), bor(x.args[2], y))
        if x.op == 'ite' and (_isz(x.args[1]) or _isz(x.args[2])):
            return ite(x.args[0], bor(x.args[1], y), bor(x.args[2], y))
    s = _split2(bor, a, b)
    if s is not None: return s
    if a.id > b.id: a, b = b, a
    return _mk('or', a.w, (a, b))

def bxor(a, b):
    if a is b: return const(0, a.w)
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        if a.op == 'const': return const(a.k ^ b.k, a.w)
        if b.k == 0: return a
        if _isones(b): return bnot(a)
    if a.w == 1:
        if a.op == 'not': return bnot(bxor(a.args[0], b))
        if b.op == 'not': return bnot(bxor(a, b.args[0]))
        if a.id > b.id: a, b = b, a
        return _mk('xor', 1, (a, b))
    if a.op == 'not' and b.op == 'not': return bxor(a.args[0], b.args[0])
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], bxor(a.args[1], b.args[1]), bxor(a.args[2], b.args[2]))
    if _is_maskite(a) and _is_maskite(b):
        ca = a.args[0] if a.args[1].k else bnot(a.args[0])
        cb = b.args[0] if b.args[1].k else bnot(b.args[0])
        return ite(bxor(ca, cb), const(-1, a.w), const(0, a.w))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op == 'const' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], bxor(x.args[1], y), bxor(x.args[2], y))
    # x ^ (x ^ y)
    for x, y in ((a, b), (b, a)):
        if y.op == 'xor':
            if y.args[0] is x: return y.args[1]
            if y.args[1] is x: return y.args[0]
        if y.op == 'ite' and (_isz(y.args[1]) or _isz(y.args[2])):
            return ite(y.args[0], bxor(y.args[1], x), bxor(y.args[2], x))
    s = _split2(bxor, a, b)
    if s is not None: return s
    if a.id > b.id: a, b = b, a
    return _mk('xor', a.w, (a, b))

# n-ary boolean connectives
def _nary(op, dual, items):
    unit = TRUE if op == 'band' else FALSE
    zero = FALSE if op == 'band' else TRUE
    s = {}
    stack = list(items)
    while stack:
        t = stack.pop()
        if t is unit: continue
        if t is zero: return zero
        if t.op == op: stack.extend(t.args); continue
        # not(or(..)) = and(not..)
        if t.op == 'not' and t.args[0].op == dual:
            stack.extend(bnot(x) for x in t.args[0].args); continue
        s[t.id] = t
    for t in s.values():
        if t.op == 'not' and t.args[0].id in s: return zero
    for t in list(s.values()):
        pos = t.op != 'not'; x = t if pos else t.args[0]
        if x.op == 'slt' and x.args[1].op == 'const' and not x.args[1].k >> (x.args[1].w - 1):
            # a negative number is less than a constant that is not
            m = msb(x.args[0]); n = bnot(m)
            if op == 'band':
                if m.id in s:
                    if not pos: return zero
                    s.pop(t.id, None)
                elif not pos: s.pop(n.id, None)
            else:
                if n.id in s:
                    if pos: return zero
                    s.pop(t.id, None)
                elif pos: s.pop(m.id, None)
    if len(s) <= 40:
        changed = True
        while changed:
            changed = False
            for t in list(s.values()):
                if t.op == dual:
                    keep = []
                    drop = False
                    for x in t.args:
                        if x.id in s: drop = True; break         # absorption
                        n = bnot(x)
                        if n.id in s: continue                    # x op (not x dual y) = x op y
                        keep.append(x)
                    if drop:
                        del s[t.id]; changed = True; break
                    if len(keep) < len(t.args):
                        del s[t.id]
                        r = _nary(dual, op, keep)
                        return _nary(op, dual, list(s.values()) + [r])
    if not s: return unit
    if len(s) == 1: return next(iter(s.values()))
    return _mk(op, 1, tuple(sorted(s.values(), key=lambda t: t.id)))
def conj(*items):
    if len(items) == 1: return items[0]
    return _nary('band', 'bor', items)
def disj(*items):
    if len(items) == 1: return items[0]
    # factor common conjuncts of two conjunctions
    if len(items) == 2 and (items[0].op == 'band' or items[1].op == 'band'):
        a = items[0].args if items[0].op == 'band' else (items[0],)
        b = items[1].args if items[1].op == 'band' else (items[1],)
        sb = set(x.id for x in b)
        com = [x for x in a if x.id in sb]
        if com:
            sc = set(x.id for x in com)
            ra = [x for x in a if x.id not in sc]
            rb = [x for x in b if x.id not in sc]
            if not ra or not rb: return conj(*com) if len(com) > 1 else com[0]
            return conj(*com, disj(conj(*ra), conj(*rb)))
    return _nary('bor', 'band', items)
def implies(a, b): return disj(bnot(a), b)

def ite(c, a, b):
    if c.op == 'const': return a if c.k else b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    w = a.w
    if w == 1:
        if a.op == 'const':
            return disj(c, b) if a.k else conj(bnot(c), b)
        if b.op == 'const':
            return disj(bnot(c), a) if b.k else conj(c, a)
        if a is c: return disj(c, b)
        if b is c: return conj(c, a)
        na = a.args[0] if a.op == 'not' else None
        if na is b or (b.op == 'not' and b.args[0] is a):
            return bnot(bxor(c, a))
    if w != 'A' and w > 1 and c.op in ('slt', 'ult') and (a.op == 'const' or b.op == 'const'):
        # minimum/maximum with the greatest value
        m = ((1 << w) - 1) >> (c.op == 'slt'); x, y = c.args
        if x.w == w and y.op == 'const' and y.k == m:
            if a is x and b is y: return a
            if a is y and b is x: return a
    if b.op == 'ite' and b.args[1] is a:
        return ite(disj(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(conj(c, a.args[0]), a.args[1], b)
    return _mk('ite', w, (c, a, b))

# ---------------------------------------------------------------- shifts
def shl(a, b):
    if b.op == 'const':
        k = b.k
        if k == 0: return a
        if k >= a.w: return const(0, a.w)
        return concat(extract(a, a.w-1-k, 0), const(0, k))
    if _isz(a): return a
    return _mk('shl', a.w, (a, b))
def lshr(a, b):
    if b.op == 'const':
        k = b.k
        if k == 0: return a
        if k >= a.w: return const(0, a.w)
        return concat(const(0, k), extract(a, a.w-1, k))
    if _isz(a): return a
    return _mk('lshr', a.w, (a, b))
def ashr(a, b):
    if b.op == 'const':
        k = min(b.k, a.w)
        if k == 0: return a
        if k >= a.w: return sext(msb(a), a.w)
        return sext(extract(a, a.w-1, k), a.w)
    if _isz(a): return a
    if msb(a) is FALSE: return lshr(a, b)
    return _mk('ashr', a.w, (a, b))

# ---------------------------------------------------------------- division
def udiv(a, b):
    if b.op == 'const' and b.k:
        if a.op == 'const': return const(a.k // b.k, a.w)
        if b.k & (b.k-1) == 0: return lshr(a, const(b.k.bit_length()-1, a.w))
    if a.op == 'concat' and _isz(a.args[0]):
        k = a.args[0].w
        if b.op == 'concat' and _isz(b.args[0]): k = min(k, b.args[0].w)
        elif b.op == 'const': k = min(k, a.w - max(1, b.k.bit_length()))
        else: k = 0
        n = a.w - k
        if k and n > 1:
            y = extract(b, n-1, 0)
            return ite(eq(y, const(0, n)), const(-1, a.w), zext(udiv(extract(a, n-1, 0), y), a.w))
    return _mk('udiv', a.w, (a, b))
def urem(a, b):
    if b.op == 'const' and b.k:
        if a.op == 'const': return const(a.k % b.k, a.w)
        if b.k & (b.k-1) == 0: return band(a, const(b.k-1, a.w))
    return sub(a, mul(udiv(a, b), b))
def _sdivv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
def sdiv(a, b):
    if a.op == 'const' and b.op == 'const' and b.k:
        return const(_sdivv(_sgn(a.k, a.w), _sgn(b.k, b.w)), a.w)
    if b.op == 'const' and b.k == 1 and a.w > 1: return a
    if msb(a) is FALSE and msb(b) is FALSE: return udiv(a, b)
    return _mk('sdiv', a.w, (a, b))
FACTS = {}      # {('srem', a, b): constant}: equations the current precondition contains
def srem(a, b):
    r = FACTS.get(('srem', a, b)) if FACTS else None
    if r is not None: return r
    if a.op == 'const' and b.op == 'const' and b.k:
        x, y = _sgn(a.k, a.w), _sgn(b.k, b.w)
        return const(x - _sdivv(x, y) * y, a.w)
    if msb(a) is FALSE and msb(b) is FALSE: return urem(a, b)
    return sub(a, mul(sdiv(a, b), b))

# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.op == 'const': a, b = b, a
    if a.op == 'const': return boolc(a.k == b.k)
    if a.w == 1: return bnot(bxor(a, b))
    if b.op == 'const':
        if a.op == 'ite':
            t, e = a.args[1], a.args[2]
            if t.op == 'const' or e.op == 'const':
                return ite(a.args[0], eq(t, b), eq(e, b))
        if a.op == 'not': return eq(a.args[0], const(~b.k, b.w))
        if a.op == 'concat':
            pos = a.w; cs = []
            for x in a.args:
                pos -= x.w
                cs.append(eq(x, extract(b, pos + x.w - 1, pos)))
                if cs[-1] is FALSE: return FALSE
            return conj(*cs)
    if a.op == 'concat' and b.op == 'concat':
        ba, bb = _boundaries(a), _boundaries(b)
        common = ba & bb
        if common and (_has_const_piece(a) or _has_const_piece(b) or ba == bb):
            cuts = [0] + sorted(common) + [a.w]
            cs = []
            for i in range(len(cuts)-1):
                cs.append(eq(extract(a, cuts[i+1]-1, cuts[i]), extract(b, cuts[i+1]-1, cuts[i])))
                if cs[-1] is FALSE: return FALSE
            return conj(*cs)
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'const': return boolc(d.k == 0)
        if d.op == 'lin' and len(d.args) == 1 and d.k[0][0] in (1, (1 << d.w) - 1):
            k = d.k[1] if d.k[0][0] != 1 else -d.k[1]
            x, y = d.args[0], const(k, d.w)
            if x is not a and x is not b: return eq(x, y)
            return _mk('eq', 1, (x, y))
    if a.id > b.id: a, b = b, a
    if a.op == 'const': a, b = b, a
    return _mk('eq', 1, (a, b))

def umax(t):
    if t.op == 'const': return t.k
    if t.op == 'concat' and t.args[0].op == 'const':
        rest = t.w - t.args[0].w
        return (t.args[0].k << rest) | ((1 << rest) - 1)
    if t.op == 'ite': return max(umax(t.args[1]), umax(t.args[2]))
    if t.op == 'urem' and t.args[1].op == 'const' and t.args[1].k: return t.args[1].k - 1
    return (1 << t.w) - 1
def umin(t):
    if t.op == 'const': return t.k
    if t.op == 'concat' and t.args[0].op == 'const':
        return t.args[0].k << (t.w - t.args[0].w)
    if t.op == 'ite': return min(umin(t.args[1]), umin(t.args[2]))
    return 0

def ult(a, b):
    if a is b: return FALSE
    if a.op == 'const' and b.op == 'const': return boolc(a.k < b.k)
    if b.op == 'const' and b.k == 0: return FALSE
    if b.op == 'const' and b.k == 1: return eq(a, const(0, a.w))
    if a.op == 'const' and a.k == 0: return bnot(eq(b, a))
    if _isones(a): return FALSE
    if a.w == 1: return conj(bnot(a), b)
    if umax(a) < umin(b): return TRUE
    if umin(a) >= umax(b): return FALSE
    for x, y, f in ((a, b, lambda p, q: ult(p, q)), (b, a, lambda p, q: ult(q, p))):
        if x.op == 'ite' and y.op == 'const' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
    if a.op == 'concat' and _isz(a.args[0]) and b.op in ('concat', 'const'):
        k = a.args[0].w
        if b.op == 'concat' and _isz(b.args[0]): k = min(k, b.args[0].w)
        elif b.op == 'const' and b.k < (1 << (a.w - k)): pass
        else: k = 0
        if k: return ult(extract(a, a.w-1-k, 0), extract(b, b.w-1-k, 0))
    if b.op == 'concat' and _isz(b.args[0]) and a.op == 'const' and a.k < (1 << (b.w - b.args[0].w)):
        k = b.args[0].w
        return ult(extract(a, a.w-1-k, 0), extract(b, b.w-1-k, 0))
    return _mk('ult', 1, (a, b))
def ule(a, b): return bnot(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    if a.op == 'const' and b.op == 'const': return boolc(_sgn(a.k, a.w) < _sgn(b.k, b.w))
    if _isz(b): return msb(a)
    if _isones(a): return bnot(msb(b))
    if a.w == 1: return conj(a, bnot(b))
    if a.op == 'const' and a.k == (1 << (a.w - 1)) - 1 or b.op == 'const' and b.k == 1 << (b.w - 1): return FALSE
    ma, mb = msb(a), msb(b)
    if ma is FALSE and mb is FALSE: return ult(a, b)
    if ma is TRUE and mb is TRUE: return ult(a, b)
    if ma is FALSE and mb is TRUE: return FALSE
    if ma is TRUE and mb is FALSE: return TRUE
    for x, y, f in ((a, b, lambda p, q: slt(p, q)), (b, a, lambda p, q: slt(q, p))):
        if x.op == 'ite' and y.op == 'const' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
    # sign flipped operands: the emulation of unsigned comparisons
    fa, fb = _signflip(a), _signflip(b)
    if fa is not None and fb is not None: return ult(fa, fb)
    # common sign extension
    ka, kb = _sextw(a), _sextw(b)
    if b.op == 'const' and ka < a.w:
        v = _sgn(b.k, b.w)
        if -(1 << (ka-1)) <= v < (1 << (ka-1)): return slt(extract(a, ka-1, 0), const(v, ka))
    if a.op == 'const' and kb < b.w:
        v = _sgn(a.k, a.w)
        if -(1 << (kb-1)) <= v < (1 << (kb-1)): return slt(const(v, kb), extract(b, kb-1, 0))
    k = max(ka, kb)
    if k < a.w: return slt(extract(a, k-1, 0), extract(b, k-1, 0))
    return _mk('slt', 1, (a, b))
def sle(a, b): return bnot(slt(b, a))
def _sextw(t):
    """smallest k such that t is visibly the sign extension of its low k bits"""
    if t.op == 'concat':
        h = t.args[0]
        if _isz(h): return t.w - h.w + 1
        if _is_maskite(h):
            k = t.w - h.w
            s = extract(t, k-1, k-1)
            c = h.args[0] if h.args[1].k else bnot(h.args[0])
            if s is c: return k
    if t.op == 'const':
        v = _sgn(t.k, t.w)
        return (v if v >= 0 else ~v).bit_length() + 1
    return t.w
_sfm = {}
def _signflip(t):
    if t.op == 'ite':
        if t in _sfm: return _sfm[t]
        if len(_sfm) > 20000: _sfm.clear()
        a, b = _signflip(t.args[1]), _signflip(t.args[2])
        r = _sfm[t] = None if a is None or b is None else ite(t.args[0], a, b)
        return r
    if t.op == 'concat' and t.args[0].op == 'not' and t.args[0].w == 1:
        return concat(t.args[0].args[0], *t.args[1:])
    if t.op == 'const': return const(t.k ^ (1 << (t.w-1)), t.w)
    if t.op == 'lin' and t.k[1] == 1 << (t.w-1):   # x - 0x80000000
        return from_lin(dict(zip(t.args, t.k[0])), 0, t.w)
    return None

# ---------------------------------------------------------------- floating point
FMT = {32: (8, 24), 64: (11, 53)}
def f2bits(x, w):
    if w == 32:
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def bits2f(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}
def b_isnan(b, w):
    e, s = FMT[w]
    return (b & ((1 << (w-1)) - 1)) > (((1 << e) - 1) << (s-1))
def b_isinf(b, w):
    e, s = FMT[w]
    return (b & ((1 << (w-1)) - 1)) == (((1 << e) - 1) << (s-1))
def b_frac(b, w):
    """exact value as Fraction (finite)"""
    return Fraction(bits2f(b, w))
def frac2bits(q, w, negzero=False, mode='rne'):
    """round an exact rational"""
    e, s = FMT[w]
    bias = (1 << (e-1)) - 1
    if q == 0: return (1 << (w-1)) if negzero else 0
    sign = 1 if q < 0 else 0
    q = abs(q)
    # exponent
    n, d = q.numerator, q.denominator
    ex = n.bit_length() - d.bit_length()
    if (n << max(0, -ex)) < (d << max(0, ex)): ex -= 1
    ex = max(ex, 1 - bias)
    sh = ex - (s - 1)
    if sh >= 0: num, den = n, d << sh
    else: num, den = n << -sh, d
    m, r = divmod(num, den)
    up = False
    if mode == 'rne': up = 2*r > den or (2*r == den and (m & 1))
    elif mode == 'rtz': up = False
    elif mode == 'rup': up = r > 0 and not sign
    elif mode == 'rdn': up = r > 0 and sign
    if up: m += 1
    if m >> s: m >>= 1; ex += 1
    if m >> (s-1): be = ex + bias
    else: be = 0
    if be >= (1 << e) - 1: 
        return (sign << (w-1)) | (((1 << e) - 1) << (s-1))
    return (sign << (w-1)) | (be << (s-1)) | (m & ((1 << (s-1)) - 1))

def _fbin(op, a, b, w):
    if b_isnan(a, w): return a | (1 << (FMT[w][1]-2))
    if b_isnan(b, w): return b | (1 << (FMT[w][1]-2))
    sa, sb = a >> (w-1), b >> (w-1)
    ia, ib = b_isinf(a, w), b_isinf(b, w)
    inf = b & 0
    e, s = FMT[w]
    INF = ((1 << e) - 1) << (s-1)
    if op == 'fadd':
        if ia or ib:
            if ia and ib: return a if sa == sb else QNAN[w] | (1 << (w-1))
            return a if ia else b
        x, y = b_frac(a, w), b_frac(b, w)
        z = x + y
        if z == 0: return (1 << (w-1)) if (sa and sb) else 0
        return frac2bits(z, w)
    if op == 'fmul':
        sg = sa ^ sb
        if ia or ib:
            if (a & ~(1 << (w-1))) == 0 or (b & ~(1 << (w-1))) == 0: return QNAN[w] | (1 << (w-1))
            return (sg << (w-1)) | INF
        z = b_frac(a, w) * b_frac(b, w)
        return frac2bits(z, w, bool(sg)) | ((sg << (w-1)) if z == 0 else 0)
    if op == 'fdiv':
        sg = sa ^ sb
        za, zb = (a & ~(1 << (w-1))) == 0, (b & ~(1 << (w-1))) == 0
        if ia and ib or za and zb: return QNAN[w] | (1 << (w-1))
        if ia or zb: return (sg << (w-1)) | INF
        if ib or za: return sg << (w-1)
        return frac2bits(b_frac(a, w) / b_frac(b, w), w)
    if op == 'frem':
        if ia or (b & ~(1 << (w-1))) == 0: return QNAN[w]
        r = math.fmod(bits2f(a, w), bits2f(b, w))
        return f2bits(r, w)
    raise KeyError(op)
def isqrt_bits(a, w):
    if b_isnan(a, w): return a | (1 << (FMT[w][1]-2))
    if a & ~(1 << (w-1)) == 0: return a
    if a >> (w-1): return QNAN[w] | (1 << (w-1))
    if b_isinf(a, w): return a
    q = b_frac(a, w)
    # correctly rounded: scale so that the integer sqrt has > s+2 bits, sticky bit
    n, d = q.numerator, q.denominator      # d power of two
    k = 2 * (FMT[w][1] + 4) + max(0, d.bit_length())
    k += k & 1
    k2 = k
    num = (n << (2*k2)) // d if (n << (2*k2)) % d == 0 else (n << (2*k2)) // d
    r = math.isqrt(num)
    f = Fraction(r, 1 << k2)
    if r * r != num or (n << (2*k2)) % d: f += Fraction(1, 1 << (k2 + 2))
    return frac2bits(f, w)
def b_fma(a, b, c, w):
    for x in (a, b, c):
        if b_isnan(x, w): return x | (1 << (FMT[w][1]-2))
    e, s = FMT[w]
    INF = ((1 << e) - 1) << (s-1)
    za, zb = (a & ~(1 << (w-1))) == 0, (b & ~(1 << (w-1))) == 0
    sg = (a >> (w-1)) ^ (b >> (w-1))
    if b_isinf(a, w) or b_isinf(b, w):
        if za or zb: return QNAN[w] | (1 << (w-1))
        if b_isinf(c, w) and (c >> (w-1)) != sg: return QNAN[w] | (1 << (w-1))
        return (sg << (w-1)) | INF
    if b_isinf(c, w): return c
    z = b_frac(a, w) * b_frac(b, w)
    t = z + b_frac(c, w)
    if t == 0:
        if z == 0 or True:
            sc = c >> (w-1)
            if z == 0 and b_frac(c, w) == 0: return (1 << (w-1)) if (sg and sc) else 0
            return 0
    return frac2bits(t, w)

def b_round(a, mode, w):
    """round to integral"""
    if b_isnan(a, w): return a | (1 << (FMT[w][1]-2))
    if b_isinf(a, w) or (a & ~(1 << (w-1))) == 0: return a
    q = b_frac(a, w)
    f = q.numerator // q.denominator
    r = q - f
    if mode == 'rdn': z = f
    elif mode == 'rup': z = f + (1 if r else 0)
    elif mode == 'rtz': z = f + (1 if r and f < 0 else 0)
    elif mode == 'rne': z = f + (1 if (r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1)) else 0)
    elif mode == 'rna': # half away from zero
        z = f + (1 if (r > Fraction(1, 2) or (r == Fraction(1, 2) and f >= 0)) else 0)
    sg = a >> (w-1)
    if z == 0: return sg << (w-1)
    return frac2bits(Fraction(z), w)
def b_cvt_si(a, w, iw, mode):
    """x86 float -> signed int, out of range gives the integer indefinite value"""
    bad = 1 << (iw-1)
    if b_isnan(a, w) or b_isinf(a, w): return bad
    q = b_frac(b_round(a, mode, w), w)
    v = int(q)
    if v < -(1 << (iw-1)) or v >= (1 << (iw-1)): return bad
    return v & ((1 << iw) - 1)
def b_cvt_ui(a, w, iw, mode):
    if b_isnan(a, w) or b_isinf(a, w): return (1 << iw) - 1
    v = int(b_frac(b_round(a, mode, w), w))
    if v < 0 or v >= (1 << iw): return (1 << iw) - 1
    return v
def b_flt(a, b, w):
    if b_isnan(a, w) or b_isnan(b, w): return False
    return bits2f(a, w) < bits2f(b, w)
def b_fle(a, b, w):
    if b_isnan(a, w) or b_isnan(b, w): return False
    return bits2f(a, w) <= bits2f(b, w)
def b_feq(a, b, w):
    if b_isnan(a, w) or b_isnan(b, w): return False
    return bits2f(a, w) == bits2f(b, w)

def fnan(a):
    if a.op == 'const': return boolc(b_isnan(a.k, a.w))
    if a.op == 'ite': return ite(a.args[0], fnan(a.args[1]), fnan(a.args[2]))
    # NaN-ness ignores the sign bit
    c = concat(const(0, 1), extract(a, a.w-2, 0))
    if a.op in ('sitofp', 'uitofp'): return FALSE
    return _mk('fnan', 1, (c,)) if c.op != 'const' else boolc(b_isnan(c.k, c.w))
def feq(a, b):
    if a is b: return bnot(fnan(a))
    if a.op == 'const' and b.op == 'const': return boolc(b_feq(a.k, b.k, a.w))
    if a.id > b.id: a, b = b, a
    return _mk('feq', 1, (a, b))
def _quotbound(c, q):
    """c < q (or <=) for a constant above every finite quotient q of exactly converted integers"""
    if b_isnan(c.k, c.w) or b_isinf(c.k, c.w): return None
    x, y = q.args
    if x.op not in ('sitofp', 'uitofp') or y.op not in ('sitofp', 'uitofp'): return None
    n = x.args[0].w
    if b_frac(c.k, c.w) <= (1 << n): return None
    i = x.args[0]
    pos = bnot(eq(i, const(0, i.w)))
    if x.op == 'sitofp': pos = conj(pos, bnot(msb(i)))
    return conj(pos, eq(y.args[0], const(0, y.args[0].w)))
def flt(a, b):
    if a is b: return FALSE
    if a.op == 'const' and b.op == 'const': return boolc(b_flt(a.k, b.k, a.w))
    if a.op == 'const' and a.k == f2bits(float('inf'), a.w) or b.op == 'const' and b.k == f2bits(float('-inf'), b.w): return FALSE
    if a.op == 'const' and b.op == 'fdiv':
        r = _quotbound(a, b)
        if r is not None: return r
    return _mk('flt', 1, (a, b))
def fle(a, b):
    if a is b: return bnot(fnan(a))
    if a.op == 'const' and b.op == 'const': return boolc(b_fle(a.k, b.k, a.w))
    if a.op == 'const' and b.op == 'fdiv':
        r = _quotbound(a, b)
        if r is not None: return r
    return _mk('fle', 1, (a, b))
def funo(a, b): return disj(fnan(a), fnan(b))
def fcmp(pred, a, b):
    p = pred
    if p == 'false': return FALSE
    if p == 'true': return TRUE
    if p == 'oeq': return feq(a, b)
    if p == 'une': return bnot(feq(a, b))
    if p == 'olt': return flt(a, b)
    if p == 'ogt': return flt(b, a)
    if p == 'ole': return fle(a, b)
    if p == 'oge': return fle(b, a)
    if p == 'ult': return bnot(fle(b, a))
    if p == 'ugt': return bnot(fle(a, b))
    if p == 'ule': return bnot(flt(b, a))
    if p == 'uge': return bnot(flt(a, b))
    if p == 'uno': return funo(a, b)
    if p == 'ord': return bnot(funo(a, b))
    if p == 'one': return conj(bnot(feq(a, b)), bnot(funo(a, b)))
    if p == 'ueq': return disj(feq(a, b), funo(a, b))
    raise KeyError(pred)
def fneg(a): return bxor(a, const(1 << (a.w-1), a.w))
def fabs(a): return concat(const(0, 1), extract(a, a.w-2, 0))
def fadd(a, b):
    if a.op == 'const' and b.op == 'const': return const(_fbin('fadd', a.k, b.k, a.w), a.w)
    if a.id > b.id: a, b = b, a
    if a.w == 64:
        # sitofp(x) + 2^31 == uitofp(x + 2^31) for 32-bit x: both sides are exact
        x, y = (a, b) if b.op == 'const' else (b, a)
        if y.op == 'const' and y.k == 0x41e0000000000000 and x.op == 'sitofp' and x.args[0].w == 32:
            return uitofp(add(x.args[0], const(1 << 31, 32)), 64)
    return _mk('fadd', a.w, (a, b))
def fsub(a, b): return fadd(a, fneg(b))
def fmul(a, b):
    if a.op == 'const' and b.op == 'const': return const(_fbin('fmul', a.k, b.k, a.w), a.w)
    if a.id > b.id: a, b = b, a
    return _mk('fmul', a.w, (a, b))
def fdiv(a, b):
    if a.op == 'const' and b.op == 'const': return const(_fbin('fdiv', a.k, b.k, a.w), a.w)
    return _mk('fdiv', a.w, (a, b))
def frem(a, b): return _mk('frem', a.w, (a, b))
def fsqrt(a):
    if a.op == 'const': return const(isqrt_bits(a.k, a.w), a.w)
    return _mk('fsqrt', a.w, (a,))
def ffma(a, b, c):
    if a.op == b.op == c.op == 'const': return const(b_fma(a.k, b.k, c.k, a.w), a.w)
    if a.id > b.id: a, b = b, a
    return _mk('ffma', a.w, (a, b, c))
def fround(a, mode):
    if a.op == 'const': return const(b_round(a.k, mode, a.w), a.w)
    return _mk('fround', a.w, (a,), mode)
def sitofp(a, w):
    if a.op == 'const': return const(frac2bits(Fraction(_sgn(a.k, a.w)), w), w)
    k = _sextw(a)
    if k < a.w:
        if _isz(a.args[0]): return uitofp(extract(a, k-2, 0), w)
        return sitofp(extract(a, k-1, 0), w)
    return _mk('sitofp', w, (a,))
def uitofp(a, w):
    if a.op == 'const': return const(frac2bits(Fraction(a.k), w), w)
    if a.op == 'concat' and _isz(a.args[0]): return uitofp(extract(a, a.w-1-a.args[0].w, 0), w)
    return _mk('uitofp', w, (a,))
def fptosi(a, iw, mode='rtz'):
    if a.op == 'const': return const(b_cvt_si(a.k, a.w, iw, mode), iw)
    if a.op == 'fdiv' and mode == 'rtz' and iw == 32:
        r = _intdiv(a, iw)
        if r is not None: return r
    return _mk('fptosi', iw, (a,), mode)
def _intdiv(a, iw):
    """trunc(RN(x / y)) for exactly converted integers x, y equals the integer quotient when
    |x| + |y| < 2^p (lemma DIV in DESIGN.md, proved in /verif/lemmas); y = 0 gives inf or NaN and the conversion
    then returns the integer-indefinite value, as it does for quotients >= 2^31"""
    x, y = a.args
    lim = 32 if a.w == 64 else 16
    o = []
    for t in (x, y):
        if t.op not in ('sitofp', 'uitofp') or t.args[0].w > lim: return None
        i = t.args[0]
        o.append(sext(i, 32) if t.op == 'sitofp' else zext(i, 32))
    u = [t.op == 'uitofp' and t.args[0].w == 32 for t in (x, y)]
    ind = const(1 << 31, 32)
    if any(u):
        if not all(t.op == 'uitofp' for t in (x, y)): return None
        q = udiv(o[0], o[1])
        bad = disj(eq(o[1], const(0, 32)), msb(q))
    else:
        q = sdiv(o[0], o[1])
        bad = eq(o[1], const(0, 32))
    return ite(bad, ind, q)
def fptoui(a, iw, mode='rtz'):
    if a.op == 'const': return const(b_cvt_ui(a.k, a.w, iw, mode), iw)
    return _mk('fptoui', iw, (a,), mode)
def b_fcvt(b, w, w2):
    if b_isnan(b, w):
        s = b >> (w-1)
        if w2 > w: m = (b & ((1 << 23)-1)) << 29; return (s << 63) | (0x7ff << 52) | m | (1 << 51)
        m = (b & ((1 << 52)-1)) >> 29; return (s << 31) | (0xff << 23) | m | (1 << 22)
    if b_isinf(b, w): return ((b >> (w-1)) << (w2-1)) | (((1 << FMT[w2][0])-1) << (FMT[w2][1]-1))
    q = b_frac(b, w)
    sg = b >> (w-1)
    r = frac2bits(q, w2, bool(sg))
    if q != 0 and r & ~(1 << (w2-1)) == 0: r = sg << (w2-1)
    return r
def fcvt(a, w):
    if a.w == w: return a
    if a.op == 'const': return const(b_fcvt(a.k, a.w, w), w)
    return _mk('fcvt', w, (a,))
def uf(name, w, *args): return _mk('uf', w, tuple(args), name)

# commutative-monoid reinterpretation is done by the contracts, on these nodes:
def ctpop(a):
    r = const(0, a.w)
    for i in range(a.w): r = add(r, zext(extract(a, i, i), a.w))
    return r
def cttz(a, zero):
    r = zero
    for i in range(a.w-1, -1, -1): r = ite(extract(a, i, i), const(i, a.w), r)
    return r
def ctlz(a, zero):
    r = zero
    for i in range(a.w): r = ite(extract(a, i, i), const(a.w-1-i, a.w), r)
    return r

# ---------------------------------------------------------------- arrays (byte addressed, index 64 bit)
def arrvar(name): return _mk('var', 'A', (), name)
_aselmemo = {}
def aselect(arr, off, n):
    """n bytes little endian at off"""
    key = (arr, off, n)
    r = _aselmemo.get(key)
    if r is None:
        if len(_aselmemo) > 200000: _aselmemo.clear()
        r = _aselmemo[key] = _aselect(arr, off, n)
    return r
def _multiple(d, m):
    """the value of the term is a multiple of m (a power of two) by the form of the term"""
    ks, c = to_lin(d)
    def tz(a):
        if a.op == 'concat' and a.args[-1].op == 'const' and a.args[-1].k == 0: return 1 << a.args[-1].w
        if a.op == 'ite': return min(tz(a.args[1]), tz(a.args[2]))
        return (a.k & -a.k or 1 << a.w) if a.op == 'const' else 1
    return m & (m - 1) == 0 and c % m == 0 and all(k * tz(a) % m == 0 for a, k in ks.items())
def _aselect(arr, off, n):
    while True:
        if arr.op == 'astore':
            base, o, v = arr.args
            m = v.w // 8
            d = sub(off, o)
            if d.op == 'const':
                k = _sgn(d.k, 64)
                if k >= m or k <= -n: arr = base; continue
                if k == 0 and n == m: return v
                if 0 <= k and k + n <= m: return extract(v, 8*(k+n)-1, 8*k)
                return concat(*[aselect(arr, add(off, const(i, 64)), 1) for i in range(n-1, -1, -1)])
            # accesses at multiples of their common size are equal or disjoint
            if n == m and _multiple(d, m): return ite(eq(off, o), v, aselect(base, off, n))
            break
        if arr.op == 'ite':
            return ite(arr.args[0], aselect(arr.args[1], off, n), aselect(arr.args[2], off, n))
        break
    return _mk('select', 8*n, (arr, off))
def astore(arr, off, v):
    if arr.op == 'astore' and arr.args[1] is off and arr.args[2].w == v.w: arr = arr.args[0]
    return _mk('astore', 'A', (arr, off, v))

# ---------------------------------------------------------------- traversal / substitution / evaluation
def topo(roots):
    seen = set(); out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen: stack.append((a, False))
    return out
def free_vars(*roots):
    return [t for t in topo(roots) if t.op == 'var']

REBUILD = {
    'mul': mul, 'and': band, 'or': bor, 'xor': bxor, 'not': bnot, 'ite': ite, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
    'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'eq': eq, 'ult': ult, 'slt': slt,
    'feq': feq, 'flt': flt, 'fle': fle, 'fnan': fnan, 'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv, 'frem': frem,
    'fsqrt': fsqrt, 'ffma': ffma, 'band': conj, 'bor': disj, 'concat': concat, 'astore': astore,
}
def rebuild(t, args):
    op = t.op
    f = REBUILD.get(op)
    if f: return f(*args)
    if op == 'lin':
        r = const(t.k[1], t.w)
        for c, a in zip(t.k[0], args): r = add(r, mulc(a, c))
        return r
    if op == 'extract': return extract(args[0], *t.k)
    if op == 'fround': return fround(args[0], t.k)
    if op == 'sitofp': return sitofp(args[0], t.w)
    if op == 'uitofp': return uitofp(args[0], t.w)
    if op == 'fptosi': return fptosi(args[0], t.w, t.k)
    if op == 'fptoui': return fptoui(args[0], t.w, t.k)
    if op == 'fcvt': return fcvt(args[0], t.w)
    if op == 'uf': return uf(t.k, t.w, *args)
    if op == 'select': return aselect(args[0], args[1], t.w // 8)
    raise KeyError(op)
def subst(roots, mapping):
    """mapping: Term -> Term; returns list"""
    m = dict(mapping)
    for t in topo(roots):
        if t in m: continue
        if not t.args: m[t] = t; continue
        na = tuple(m[a] for a in t.args)
        m[t] = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
    return [m[r] for r in roots]

class Unevaluable(Exception): pass

def evaluate(roots, env, ufs=None):
    """concrete values (ints; arrays: dicts with default) of the roots under env: Term var -> value"""
    v = {}
    for t in topo(roots):
        op = t.op
        if op == 'const': v[t] = t.k; continue
        if op == 'var':
            v[t] = env(t) if callable(env) else env[t]
            continue
        a = [v[x] for x in t.args]
        w = t.w
        if op == 'lin':
            s = t.k[1]
            for c, x in zip(t.k[0], a): s += c * x
            r = s & ((1 << w) - 1)
        elif op == 'extract': r = (a[0] >> t.k[1]) & ((1 << w) - 1)
        elif op == 'concat':
            r = 0
            for x, y in zip(t.args, a): r = (r << x.w) | y
        elif op == 'ite': r = a[1] if a[0] else a[2]
        elif op == 'not': r = ~a[0] & ((1 << w) - 1)
        elif op == 'and': r = a[0] & a[1]
        elif op == 'or': r = a[0] | a[1]
        elif op == 'xor': r = a[0] ^ a[1]
        elif op == 'band': r = 1 if all(a) else 0
        elif op == 'bor': r = 1 if any(a) else 0
        elif op == 'mul': r = a[0] * a[1] & ((1 << w) - 1)
        elif op == 'eq': r = 1 if a[0] == a[1] else 0
        elif op == 'ult': r = 1 if a[0] < a[1] else 0
        elif op == 'slt':
            aw = t.args[0].w
            r = 1 if _sgn(a[0], aw) < _sgn(a[1], aw) else 0
        elif op == 'shl': r = (a[0] << a[1]) & ((1 << w) - 1) if a[1] < w else 0
        elif op == 'lshr': r = a[0] >> a[1] if a[1] < w else 0
        elif op == 'ashr': r = (_sgn(a[0], w) >> min(a[1], w)) & ((1 << w) - 1)
        elif op == 'udiv': r = a[0] // a[1] if a[1] else (1 << w) - 1
        elif op == 'urem': r = a[0] % a[1] if a[1] else a[0]
        elif op == 'sdiv':
            x, y = _sgn(a[0], w), _sgn(a[1], w)
            r = (_sdivv(x, y) if y else (1 if x < 0 else -1)) & ((1 << w) - 1)
        elif op == 'srem':
            x, y = _sgn(a[0], w), _sgn(a[1], w)
            r = (x - _sdivv(x, y) * y if y else x) & ((1 << w) - 1)
        elif op == 'fnan': r = 1 if b_isnan(a[0], t.args[0].w) else 0
        elif op == 'feq': r = 1 if b_feq(a[0], a[1], t.args[0].w) else 0
        elif op == 'flt': r = 1 if b_flt(a[0], a[1], t.args[0].w) else 0
        elif op == 'fle': r = 1 if b_fle(a[0], a[1], t.args[0].w) else 0
        elif op in ('fadd', 'fmul', 'fdiv', 'frem'): r = _fbin(op, a[0], a[1], w)
        elif op == 'fsqrt': r = isqrt_bits(a[0], w)
        elif op == 'ffma': r = b_fma(a[0], a[1], a[2], w)
        elif op == 'fround': r = b_round(a[0], t.k, w)
        elif op == 'sitofp': r = frac2bits(Fraction(_sgn(a[0], t.args[0].w)), w)
        elif op == 'uitofp': r = frac2bits(Fraction(a[0]), w)
        elif op == 'fptosi': r = b_cvt_si(a[0], t.args[0].w, w, t.k)
        elif op == 'fptoui': r = b_cvt_ui(a[0], t.args[0].w, w, t.k)
        elif op == 'fcvt': r = b_fcvt(a[0], t.args[0].w, w)
        elif op == 'select':
            arr, off = a
            r = 0
            for i in range(w // 8): r |= _asel(arr, (off + i) & (2**64-1)) << (8*i)
        elif op == 'astore':
            r = (a[0], a[1], a[2], t.args[2].w // 8)
        elif op == 'uf':
            f = (ufs or {}).get(t.k)
            if f is None:
                # an arbitrary but fixed function
                h = hash((t.k, w) + tuple(a))
                import random
                r = random.Random(h).getrandbits(w)
            else: r = f(*a) & ((1 << w) - 1)
        else: raise Unevaluable(op)
        v[t] = r
    return [v[r] for r in roots]
def _asel(arr, off):
    while isinstance(arr, tuple):
        base, o, val, n = arr
        d = (off - o) & (2**64-1)
        if d < n: return (val >> (8*d)) & 255
        arr = base
    return arr(off)

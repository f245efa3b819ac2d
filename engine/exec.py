"""Symbolic executor / verification-condition generator over front-end LLVM IR."""
import heapq, re
import term as T
from term import const, TRUE, FALSE, conj, disj, bnot, ite, extract, concat
import ir
from ir import Local, Const, IRError
import x86

class Unsupported(Exception): pass
class Infeasible(Exception): pass

ALIGNED = {}     # base var -> known zero low bits (consulted by T.extract through hook below)
_orig_extract_var = T.extract
def _extract(t, hi, lo):
    if t.op == 'var' and t.w == 64:
        k = ALIGNED.get(t)
        if k is not None and hi < k: return const(0, hi - lo + 1)
    elif t.op == 'lin' and lo == 0 and t.w == 64 and hi < 12:
        pass
    return _orig_extract_var(t, hi, lo)
T.extract = _extract
# names imported into other functions of term.py refer to the module global, so rebinding is enough
extract = _extract

class Obj:
    _n = 0
    def __init__(self, name, size, align, kind, writable=True, arr=False, elem=1):
        Obj._n += 1
        self.id = Obj._n
        self.name = name; self.size = size; self.align = align; self.kind = kind
        self.writable = writable; self.arr = arr
        self.base = T.var('base:%s#%d' % (name, self.id), 64)
        self.live = True
        k = 0
        while (1 << (k+1)) <= align: k += 1
        ALIGNED[self.base] = k
    def __repr__(self): return '<obj %s %s>' % (self.name, self.size)

class ObjState:
    __slots__ = ('owner', 'cells', 'arr')
    def __init__(self, owner, cells=None, arr=None): self.owner = owner; self.cells = cells; self.arr = arr
    def copy(self, owner): return ObjState(owner, list(self.cells) if self.cells is not None else None, self.arr)

class State:
    __slots__ = ('mem', 'pc', 'ghost')
    def __init__(self, mem, pc, ghost=None): self.mem = mem; self.pc = pc; self.ghost = ghost or {}
    def fork(self, c):
        s = State(dict(self.mem), conj(self.pc, c), dict(self.ghost))
        return s

class Obligation:
    __slots__ = ('kind', 'desc', 'pc', 'goal', 'where', 'extra', 'own')
    def __init__(self, kind, desc, pc, goal, where=''):
        self.kind = kind; self.desc = desc; self.pc = pc; self.goal = goal; self.where = where; self.extra = None

def merge_val(c, a, b):
    if a is b: return a
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b): return a
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    if a is None: return b
    if b is None: return a
    return ite(c, a, b)

def split_pc(p, q):
    """selector telling p from q (p, q exclusive), with the common conjuncts removed"""
    a = p.args if p.op == 'band' else (p,)
    b = set(x.id for x in (q.args if q.op == 'band' else (q,)))
    r = [x for x in a if x.id not in b]
    if not r: return p
    # a literal whose negation is among q's conjuncts is sufficient
    for x in r:
        if bnot(x).id in b: return x
    return conj(*r)

class Executor:
    def __init__(self, modules, externals=None, feasible=None, budget=3000000):
        self.modules = modules
        self.symtab = {}
        for m in modules:
            for n, f in m.functions.items():
                self.symtab.setdefault(n, f)
        self.globtab = {}
        for m in modules:
            for n, g in m.globals.items():
                if not g.external and g.linkage not in ('internal', 'private'): self.globtab.setdefault(n, g)
        self.externals = dict(externals or {})
        self.static_init = False    # mutable globals start with their initializers instead of arbitrary contents
        self.objs = {}         # base term -> Obj
        self.gobjs = {}        # (module, name) -> Obj
        self.fnobjs = {}       # base term -> function name
        self.obls = []
        self.nobl = 0          # obligations generated (including those trivially true)
        self.ntriv = 0
        self.feasible = feasible
        self.steps = 0
        self.budget = budget
        self.fn_seen = {}      # function name -> number of times executed
        self.global_init = {}  # name -> list of (term) cells initialiser callback
        self.events = []       # ('throw'|'abort'|..., pc, info)
        self.callstack = []
        self.frames = []
        self.loop_handlers = []
        self.assumptions = []
        self.trusted = set()
        self.ctx = None
        self.max_unroll = 3000
        self.trace_loads = None
        self.const_p = None
        self.exc = []

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, align, kind, writable=True, arr=False, init=None):
        o = Obj(name, size, align, kind, writable, arr)
        self.objs[o.base] = o
        if arr: st.mem[o.id] = ObjState(st, None, init if init is not None else T.arrvar('mem:%s#%d' % (name, o.id)))
        else: st.mem[o.id] = ObjState(st, init if init is not None else [None] * size)
        return o
    def oblige(self, kind, desc, pc, goal):
        self.nobl += 1
        if goal is TRUE or pc is FALSE: self.ntriv += 1; return
        w = self.callstack[-1] if self.callstack else ''
        self.obls.append(Obligation(kind, desc, pc, goal, w))

    def resolve(self, p):
        """[(cond, obj, off)] for a pointer term"""
        out = []
        self._resolve(p, TRUE, out)
        return out
    def _resolve(self, p, c, out):
        d, k = T.to_lin(p)
        for a, co in d.items():
            if co == 1 and a in self.objs:
                rest = dict(d); del rest[a]
                out.append((c, self.objs[a], T.from_lin(rest, k, 64)))
                return
        for a, co in d.items():
            if co == 1 and a.op == 'ite':
                rest = dict(d); del rest[a]
                r = T.from_lin(rest, k, 64)
                n = len(out)
                self._resolve(T.add(a.args[1], r), conj(c, a.args[0]), out)
                self._resolve(T.add(a.args[2], r), conj(c, bnot(a.args[0])), out)
                return
        out.append((c, None, p))

    def offs(self, off, size, n):
        """feasible concrete offsets of a symbolic in-bounds offset"""
        d, k = T.to_lin(off)
        s = 64
        for c in d.values():
            s = min(s, (c & -c).bit_length() - 1)
        for a in d:
            pass
        st = 1 << s
        lo = k & (st - 1)
        r = list(range(lo, size - n + 1, st))
        # range information
        mx = 0; mn = k
        tot = T._sgn(k, 64)
        okr = True
        hi = tot
        for a, c in d.items():
            cs = T._sgn(c, 64)
            um = T.umax(a)
            if cs < 0 or um >= 1 << 60: okr = False; break
            hi += cs * um
        if okr and tot >= 0: r = [x for x in r if tot <= x <= hi]
        return r

    # ------------------------------------------------------------ memory access
    def load_bytes(self, st, o, os, off, n):
        """concrete offset"""
        cells = os.cells
        c0 = cells[off]
        if c0 is not None and c0[1] == 0 and c0[0].w == 8 * n:
            t = c0[0]
            for i in range(1, n):
                c = cells[off + i]
                if c is None or c[0] is not t or c[1] != i: break
            else: return t
        elif c0 is None and all(cells[off + i] is None for i in range(n)):
            t = T.fresh('uninit:%s' % o.name, 8 * n)
            os2 = os
            for i in range(n): os2.cells[off + i] = (t, i)
            return t
        parts = []
        i = n - 1
        while i >= 0:
            c = cells[off + i]
            if c is None:
                c = (T.fresh('uninit:%s' % o.name, 8), 0)
                cells[off + i] = c
            t, k = c
            j = i
            while j > 0:
                c2 = cells[off + j - 1]
                if c2 is None or c2[0] is not t or c2[1] != k - (i - j) - 1: break
                j -= 1
            parts.append(extract(t, 8 * k + 7, 8 * (k - (i - j))))
            i = j - 1
        return concat(*parts)
    def load_scalar(self, st, p, n, align=1, bits=None, guard=None):
        pc = st.pc if guard is None else conj(st.pc, guard)
        if pc is FALSE: return T.fresh('dead', 8 * n)
        res = None
        alts = self.resolve(p)
        first = True
        for c, o, off in reversed(alts):
            if c is FALSE: continue
            if len(alts) > 1 and conj(pc, c) is FALSE: continue
            pcc = conj(pc, c)
            if o is None:
                self.oblige('memory', 'load of %d bytes through an invalid pointer' % n, pcc, FALSE)
                v = T.fresh('badload', 8 * n)
            else: v = self._load_obj(st, o, off, n, align, pcc)
            res = v if res is None else ite(c, v, res)
        if res is None: res = T.fresh('dead', 8*n)
        return res
    def _load_obj(self, st, o, off, n, align, pc):
        if self.trace_loads is not None: self.trace_loads.append((o, off, n, pc))
        if not o.live:
            self.oblige('memory', 'load from %s after its lifetime' % o.name, pc, FALSE)
            return T.fresh('dangling', 8 * n)
        if align > 8: self.check_align(o, off, align, pc, 'load')
        os = st.mem.get(o.id)
        if os is None: raise Unsupported('object %s not in state' % o.name)
        if o.arr:
            self.bounds(o, off, n, pc, 'load')
            return T.aselect(os.arr, off, n)
        if off.op == 'const':
            k = T._sgn(off.k, 64)
            if k < 0 or k + n > o.size:
                self.oblige('memory', 'load of %d bytes at offset %d of %s (%s bytes)' % (n, k, o.name, o.size), pc, FALSE)
                return T.fresh('oob', 8 * n)
            self.nobl += 1; self.ntriv += 1
            return self.load_bytes(st, o, os, k, n)
        self.bounds(o, off, n, pc, 'load')
        cand = self.offs(off, o.size, n)
        if len(cand) > 4096: raise Unsupported('symbolic load with %d candidates in %s' % (len(cand), o.name))
        if not cand: return T.fresh('oob', 8 * n)
        res = self.load_bytes(st, o, os, cand[-1], n)
        for k in reversed(cand[:-1]):
            res = ite(T.eq(off, const(k, 64)), self.load_bytes(st, o, os, k, n), res)
        return res
    def bounds(self, o, off, n, pc, what):
        sz = o.size
        if isinstance(sz, int):
            if sz < n: g = FALSE
            else: g = T.ule(off, const(sz - n, 64))
        else:
            # off + n <= size, no wrap (sizes are below 2^62)
            g = conj(T.ule(off, sz), T.ule(const(n, 64), T.sub(sz, off)))
        self.oblige('memory', '%s of %d bytes inside %s' % (what, n, o.name), pc, g)
    def check_align(self, o, off, align, pc, what):
        k = align.bit_length() - 1
        a = T.extract(T.add(o.base, off), k - 1, 0)
        self.oblige('alignment', '%s from %s is %d-byte aligned' % (what, o.name, align), pc, T.eq(a, const(0, k)))
    def store_scalar(self, st, p, v, align=1, guard=None):
        n = v.w // 8
        pc = st.pc if guard is None else conj(st.pc, guard)
        if pc is FALSE: return
        alts = self.resolve(p)
        for c, o, off in alts:
            if c is FALSE: continue
            pcc = conj(pc, c)
            if pcc is FALSE: continue
            g = c if guard is None else conj(c, guard)
            if o is None:
                self.oblige('memory', 'store of %d bytes through an invalid pointer' % n, pcc, FALSE); continue
            self._store_obj(st, o, off, v, align, pcc, g)
    def wstate(self, st, o):
        os = st.mem[o.id]
        if os.owner is not st:
            os = os.copy(st); st.mem[o.id] = os
        return os
    def _store_obj(self, st, o, off, v, align, pc, g):
        n = v.w // 8
        if not o.live:
            self.oblige('memory', 'store to %s after its lifetime' % o.name, pc, FALSE); return
        if not o.writable:
            self.oblige('frame', 'store to %s, which must not change' % o.name, pc, FALSE)
        if align > 8: self.check_align(o, off, align, pc, 'store')
        os = self.wstate(st, o)
        if o.arr:
            self.bounds(o, off, n, pc, 'store')
            if g is TRUE: os.arr = T.astore(os.arr, off, v)
            else: os.arr = T.astore(os.arr, off, ite(g, v, T.aselect(os.arr, off, n)))
            return
        if off.op == 'const':
            k = T._sgn(off.k, 64)
            if k < 0 or k + n > o.size:
                self.oblige('memory', 'store of %d bytes at offset %d of %s (%s bytes)' % (n, k, o.name, o.size), pc, FALSE)
                return
            self.nobl += 1; self.ntriv += 1
            if g is not TRUE: v = ite(g, v, self.load_bytes(st, o, os, k, n))
            for i in range(n): os.cells[k + i] = (v, i)
            return
        self.bounds(o, off, n, pc, 'store')
        cand = self.offs(off, o.size, n)
        if len(cand) > 1024: raise Unsupported('symbolic store with %d candidates' % len(cand))
        new = {}
        if len(cand) > 1 and cand[1] - cand[0] < n:
            # overlapping candidates: byte by byte
            for b in range(cand[0], cand[-1] + n):
                old = self.load_bytes(st, o, os, b, 1)
                r = old
                for k in cand:
                    if k <= b < k + n: r = ite(conj(g, T.eq(off, const(k, 64))), extract(v, 8*(b-k)+7, 8*(b-k)), r)
                new[b] = r
            for b, r in new.items(): os.cells[b] = (r, 0)
            return
        for k in cand:
            old = self.load_bytes(st, o, os, k, n)
            new[k] = ite(conj(g, T.eq(off, const(k, 64))), v, old)
        for k, r in new.items():
            for i in range(n): os.cells[k + i] = (r, i)

    def load(self, st, p, ty, align=1, guard=None):
        k = ty.kind
        if k in ('i', 'f', 'ptr'):
            bits = ty.bits(); n = (bits + 7) // 8
            v = self.load_scalar(st, p, n, 1, guard=guard)      # x86 scalar accesses tolerate any alignment
            return extract(v, bits - 1, 0) if bits != 8 * n else v
        if k == 'v':
            eb = ty.elem.bits()
            if eb % 8 == 0:
                n = eb // 8
                return [self.load_scalar(st, T.add(p, const(i * n, 64)), n, align if i == 0 else 1, guard=guard) for i in range(ty.n)]
            nb = (eb * ty.n + 7) // 8
            v = self.load_scalar(st, p, nb, 1)
            return [extract(v, eb * (i + 1) - 1, eb * i) for i in range(ty.n)]
        if k == 's':
            return [self.load(st, T.add(p, const(o, 64)), f, 1) for f, o in zip(ty.fields, ty.offsets())]
        if k == 'a':
            s = ty.elem.size()
            return [self.load(st, T.add(p, const(s * i, 64)), ty.elem, 1) for i in range(ty.n)]
        raise Unsupported('load of %r' % ty)
    def store(self, st, p, v, ty, align=1, guard=None):
        k = ty.kind
        if k in ('i', 'f', 'ptr'):
            bits = ty.bits(); n = (bits + 7) // 8
            if bits != 8 * n: v = T.zext(v, 8 * n)
            self.store_scalar(st, p, v, 1, guard); return
        if k == 'v':
            eb = ty.elem.bits()
            if eb % 8 == 0:
                n = eb // 8
                for i in range(ty.n): self.store_scalar(st, T.add(p, const(i * n, 64)), v[i], align if i == 0 else 1, guard)
                return
            w = concat(*reversed(v)) if len(v) > 1 else v[0]
            nb = (w.w + 7) // 8
            self.store_scalar(st, p, T.zext(w, 8 * nb), align); return
        if k == 's':
            for x, f, o in zip(v, ty.fields, ty.offsets()): self.store(st, T.add(p, const(o, 64)), x, f, 1)
            return
        if k == 'a':
            s = ty.elem.size()
            for i in range(ty.n): self.store(st, T.add(p, const(s * i, 64)), v[i], ty.elem, 1)
            return
        raise Unsupported('store of %r' % ty)
    def memcpy(self, st, dst, src, n, da=1, sa=1, what='memcpy'):
        if n.op != 'const':
            h = self.externals.get('$memcpy_symbolic')
            if h: return h(self, st, dst, src, n)
            raise Unsupported('%s of symbolic length' % what)
        n = n.k
        if n == 0: return
        sa_ = self.resolve(src); da_ = self.resolve(dst)
        if len(sa_) == 1 and len(da_) == 1:
            (_, so, soff), (_, do, doff) = sa_[0], da_[0]
            if so is not None and do is not None and not so.arr and not do.arr and soff.op == 'const' and doff.op == 'const':
                a, b = T._sgn(soff.k, 64), T._sgn(doff.k, 64)
                if a >= 0 and b >= 0 and a + n <= so.size and b + n <= do.size and so.live and do.live:
                    self.nobl += 2; self.ntriv += 2
                    if sa > 8: self.check_align(so, soff, sa, st.pc, 'copy')
                    if da > 8: self.check_align(do, doff, da, st.pc, 'copy')
                    if not do.writable: self.oblige('frame', 'copy to %s, which must not change' % do.name, st.pc, FALSE)
                    if self.trace_loads is not None: self.trace_loads.append((so, soff, n, st.pc))
                    seg = st.mem[so.id].cells[a:a + n]
                    os = self.wstate(st, do)
                    os.cells[b:b + n] = seg
                    return
        # generic: element-wise through 1/8 byte pieces
        piece = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 2 if n % 2 == 0 else 1
        vals = [self.load_scalar(st, T.add(src, const(i, 64)), piece, sa if i == 0 and sa > 8 else 1) for i in range(0, n, piece)]
        for j, i in enumerate(range(0, n, piece)): self.store_scalar(st, T.add(dst, const(i, 64)), vals[j], da if i == 0 and da > 8 else 1)
    def memset(self, st, dst, byte, n):
        if n.op != 'const': raise Unsupported('memset of symbolic length')
        n = n.k
        i = 0
        while i < n:
            p = 8 if n - i >= 8 else 1
            self.store_scalar(st, T.add(dst, const(i, 64)), concat(*[byte] * p) if p > 1 else byte)
            i += p

    # ------------------------------------------------------------ operands
    def gobj(self, st, mod, name):
        key = (mod, name)
        o = self.gobjs.get(key)
        if o is None:
            g = mod.globals.get(name)
            if g is None or g.external:
                g2 = self.globtab.get(name)
                if g2 is None:
                    if g is None: raise Unsupported('global %s' % name)
                    g2 = g
                g = g2
                key2 = (g.module, name)
                if g.module is not mod:
                    o = self.gobj(st, g.module, name)
                    self.gobjs[key] = o
                    return o
            if g.external:
                if name in self.global_init or name.startswith('_ZTV') or name.startswith('_ZTI') or name in ('__dso_handle', 'stderr', 'stdout'):
                    try: sz = g.ty.size()
                    except IRError: sz = 8
                    o = Obj(name, max(sz, 8), 16, 'global')
                    self.objs[o.base] = o; self.gobjs[key] = o
                    self.ginit = getattr(self, 'ginit', {})
                    cells = [None] * o.size
                    self._inst_global(o, cells)
                    return o
                raise Unsupported('external global %s' % name)
            o = Obj(name, g.ty.size(), g.align, 'global', writable=not g.constant)
            o.glob = g
            self.objs[o.base] = o; self.gobjs[key] = o
            cells = [None] * o.size
            gi = self.global_init.get(name)
            if gi is not None: gi(self, o, cells)
            elif g.constant or self.static_init:
                self._init_cells(st, g.module, cells, 0, g.ty, g.init)
            else:
                # mutable global: arbitrary contents
                for i in range(0, o.size, 4 if o.size % 4 == 0 else 1):
                    n = 4 if o.size % 4 == 0 else 1
                    t = T.var('glob:%s[%d]' % (name, i), 8 * n)
                    for j in range(n): cells[i + j] = (t, j)
            self._inst_global(o, cells)
        return o
    def _inst_global(self, o, cells):
        self._gcells = getattr(self, '_gcells', {})
        self._gcells[o.id] = cells
    def _untouched(self, oid):
        """a global that a path has not touched still has its initial contents there"""
        cells = getattr(self, '_gcells', {}).get(oid)
        return ObjState(None, cells) if cells is not None else None
    def _ensure(self, st, o):
        if o.id not in st.mem:
            cells = self._gcells[o.id]
            st.mem[o.id] = ObjState(None, cells)
    def _init_cells(self, st, mod, cells, off, ty, v):
        k = ty.kind
        if v.kind == 'undef': return
        if v.kind == 'zero':
            z = const(0, 8)
            n = ty.size()
            # keep element structure
            if k in ('i', 'f', 'ptr'):
                self._put(cells, off, const(0, ty.store_size() * 8)); return
            if k == 'v':
                eb = ty.elem.bits()
                if eb % 8 == 0:
                    for i in range(ty.n): self._put(cells, off + i * eb // 8, const(0, eb))
                    return
            for i in range(n): cells[off + i] = (z, 0)
            return
        if v.kind == 'str':
            for i, b in enumerate(v.v): cells[off + i] = (const(b, 8), 0)
            return
        if v.kind == 'agg':
            if k == 's':
                for x, f, o in zip(v.v, ty.fields, ty.offsets()): self._init_cells(st, mod, cells, off + o, f, x)
            else:
                s = ty.elem.size() if k == 'a' else ty.elem.bits() // 8
                for i, x in enumerate(v.v): self._init_cells(st, mod, cells, off + i * s, ty.elem, x)
            return
        val = self.constval(st, mod, v)
        n = ty.store_size()
        if val.w != 8 * n: val = T.zext(val, 8 * n)
        self._put(cells, off, val)
    def _put(self, cells, off, t):
        for i in range(t.w // 8): cells[off + i] = (t, i)

    def constval(self, st, mod, v):
        k = v.kind; ty = v.ty
        if k == 'int':
            if ty.kind == 'ptr': return const(v.v, 64)
            return const(v.v, ty.n)
        if k == 'float': return const(v.v, ty.n)
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return [self.constval(st, mod, x) for x in v.v]
        if k == 'global':
            if v.v in mod.globals or (v.v in self.globtab and v.v not in mod.functions):
                o = self.gobj(st, mod, v.v)
                if st is not None: self._ensure(st, o)
                return o.base
            return self.fnaddr(mod, v.v)
        if k == 'str': return [const(b, 8) for b in v.v]
        if k == 'expr':
            e = v.v
            if e[0] == 'getelementptr': return self.gep(st, mod, e[1], self.constval(st, mod, e[2][0]), [(x, self.constval(st, mod, x)) for x in e[2][1:]])
            if e[0] == 'cast': return self.cast(e[1], self.constval(st, mod, e[2]), e[2].ty, ty)
            if e[0] == 'bin': return self.binop(st, e[1], self.constval(st, mod, e[2]), self.constval(st, mod, e[3]), ty)
            if e[0] == 'icmp': return self.icmp(e[1], self.constval(st, mod, e[2]), self.constval(st, mod, e[3]))
        raise Unsupported('constant %r' % v)
    def fnaddr(self, mod, name):
        t = T.var('fn:' + name, 64)
        self.fnobjs[t] = (mod, name)
        return t
    def undef(self, ty):
        if ty.kind in ('i', 'f', 'ptr'): return T.fresh('undef', ty.bits())
        if ty.kind in ('v', 'a'): return [self.undef(ty.elem) for _ in range(ty.n)]
        if ty.kind == 's': return [self.undef(f) for f in ty.fields]
        raise Unsupported('undef %r' % ty)
    def zero(self, ty):
        if ty.kind in ('i', 'f', 'ptr'): return const(0, ty.bits())
        if ty.kind in ('v', 'a'): return [self.zero(ty.elem) for _ in range(ty.n)]
        if ty.kind == 's': return [self.zero(f) for f in ty.fields]
        raise Unsupported('zero %r' % ty)
    def gep(self, st, mod, sty, base, idx):
        p = base
        ty = sty
        first = True
        for op, v in idx:
            if first:
                p = T.add(p, T.mulc(T.sext(v, 64) if v.w < 64 else v, ty.size()))
                first = False; continue
            if ty.kind == 's':
                i = v.k
                p = T.add(p, const(ty.offsets()[i], 64)); ty = ty.fields[i]
            elif ty.kind in ('a', 'v'):
                es = ty.elem.size()
                p = T.add(p, T.mulc(T.sext(v, 64) if v.w < 64 else v, es)); ty = ty.elem
            else: raise Unsupported('gep into %r' % ty)
        return p

    # ------------------------------------------------------------ scalar operations
    def lanes(self, f, *vs):
        if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
        return f(*vs)
    def binop(self, st, op, a, b, ty):
        if isinstance(a, list): return [self.binop(st, op, x, y, ty.elem) for x, y in zip(a, b)]
        if op == 'add': return T.add(a, b)
        if op == 'sub': return T.sub(a, b)
        if op == 'mul': return T.mul(a, b)
        if op == 'and': return T.band(a, b)
        if op == 'or': return T.bor(a, b)
        if op == 'xor': return T.bxor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            f = {'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}[op]
            if b.op == 'const':
                if b.k >= b.w: return T.fresh('poison-shift', a.w)
                return f(a, b)
            inr = T.ult(b, const(a.w, a.w)) if T.umax(b) >= a.w else TRUE
            r = f(a, b)
            return r if inr is TRUE else ite(inr, r, T.fresh('poison-shift', a.w))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige('division', 'divisor is not zero', st.pc, bnot(T.eq(b, const(0, b.w))))
            if op in ('sdiv', 'srem'):
                self.oblige('division', 'quotient does not overflow', st.pc, bnot(conj(T.eq(b, const(-1, b.w)), T.eq(a, const(1 << (a.w-1), a.w)))))
            return {'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem}[op](a, b)
        if ty.kind == 'f' and ty.n not in (32, 64): raise Unsupported('%s on %r' % (op, ty))
        if op == 'fadd': return T.fadd(a, b)
        if op == 'fsub': return T.fsub(a, b)
        if op == 'fmul': return T.fmul(a, b)
        if op == 'fdiv': return T.fdiv(a, b)
        if op == 'frem': return T.frem(a, b)
        raise Unsupported(op)
    def icmp(self, pred, a, b):
        if isinstance(a, list): return [self.icmp(pred, x, y) for x, y in zip(a, b)]
        if pred == 'eq': return self.peq(a, b)
        if pred == 'ne': return bnot(self.peq(a, b))
        f = {'ult': T.ult, 'ule': T.ule, 'slt': T.slt, 'sle': T.sle}
        if pred in f:
            g = f[pred]
        else:
            g0 = {'ugt': T.ult, 'uge': T.ule, 'sgt': T.slt, 'sge': T.sle}[pred]
            a, b = b, a
            g = g0
        if a.w == 64 and pred[0] == 'u':
            r = self.pcmp(g, a, b)
            if r is not None: return r
        return g(a, b)
    def pcmp(self, g, a, b):
        """unsigned pointer comparison within one object: compare offsets"""
        da, ka = T.to_lin(a); db, kb = T.to_lin(b)
        pa = [x for x, c in da.items() if c == 1 and x in self.objs]
        if len(pa) == 1 and pa[0] in db and db[pa[0]] == 1 and len([x for x in db if x in self.objs]) == 1:
            o = pa[0]
            del da[o]; del db[o]
            return g(T.from_lin(da, ka, 64), T.from_lin(db, kb, 64))
        return None
    def peq(self, a, b):
        if a.w == 64 and a is not b:
            # addresses: objects are non-null and disjoint
            for x, y in ((a, b), (b, a)):
                if y.op == 'const' and x.op in ('var', 'lin'):
                    d, k = T.to_lin(x)
                    bs = [q for q in d if q in self.objs and d[q] == 1]
                    if len(d) == 1 and bs and y.k == 0:
                        o = self.objs[bs[0]]
                        if isinstance(o.size, int) and 0 <= T._sgn(k, 64) <= o.size and not getattr(o, 'maybe_null', False): return FALSE
                if y.op == 'const' and x in self.fnobjs and y.k == 0: return FALSE
        return T.eq(a, b)
    def cast(self, op, v, fty, ty):
        if isinstance(v, list) or ty.kind == 'v':
            if op == 'bitcast': return self.bitcast(v, fty, ty)
            return [self.cast(op, x, fty.elem, ty.elem) for x in v]
        if op == 'bitcast': return v
        if op == 'trunc': return T.trunc(v, ty.n)
        if op == 'zext': return T.zext(v, ty.n)
        if op == 'sext': return T.sext(v, ty.n)
        if op == 'ptrtoint': return T.trunc(v, ty.n) if ty.n < 64 else T.zext(v, ty.n)
        if op == 'inttoptr': return T.zext(v, 64) if v.w < 64 else T.trunc(v, 64)
        if op == 'addrspacecast': return v
        if fty.kind == 'f' and fty.n == 80 or ty.kind == 'f' and ty.n == 80: raise Unsupported('x86_fp80')
        if op in ('fpext', 'fptrunc'): return T.fcvt(v, ty.n)
        if op == 'sitofp': return T.sitofp(v, ty.n)
        if op == 'uitofp': return T.uitofp(v, ty.n)
        if op == 'fptosi':
            # out of range: what the x86 code gives (the contracts exclude these inputs)
            if ty.n < 32: return T.trunc(T.fptosi(v, 32), ty.n)
            return T.fptosi(v, ty.n)
        if op == 'fptoui':
            if ty.n < 32: return T.trunc(T.fptosi(v, 32), ty.n)
            if ty.n == 32: return T.trunc(T.fptosi(v, 64), 32)
            return T.fptoui(v, ty.n)
        raise Unsupported(op)
    def bitcast(self, v, fty, ty):
        src = v if isinstance(v, list) else [v]
        if ty.kind != 'v':
            return concat(*reversed(src)) if len(src) > 1 else src[0]
        return relane(src, ty.elem.bits())

    # ------------------------------------------------------------ execution
    def run(self, name, args, st):
        f = self.symtab.get(name)
        if f is None: raise Unsupported('no definition of %s' % name)
        return self.call_fn(f, args, st)

    def run_ctors(self, st):
        """the dynamic initialisation of the first module: the functions in llvm.global_ctors in their order"""
        g = self.modules[0].globals.get('llvm.global_ctors')
        for e in (g.init.v if g else []):
            st, _ = self.call_fn(self.modules[0].functions[e.v[1].v], [], st)
            if st is None: raise Unsupported('dynamic initialisation does not return')
        return st

    def call_fn(self, f, args, st):
        f.module.func(f.name)
        self.fn_seen[f.name] = self.fn_seen.get(f.name, 0) + 1
        if len(self.callstack) > 400: raise Unsupported('call depth')
        self.callstack.append(f.name); self.frames.append([])
        try:
            s, v = self._call_fn(f, args, st)
            # the frame's objects end with it: what still refers to them is dangling
            for o in self.frames[-1]:
                o.live = False
                if s is not None: s.mem.pop(o.id, None)
            return s, v
        finally: self.callstack.pop(); self.frames.pop()

    def _call_fn(self, f, args, st):
        regs = {}
        for (nm, ty, at), v in zip(f.params, args):
            if 'byval' in at:
                bt = at['byval']
                o = self.new_obj(st, 'byval', bt.size(), at.get('align', bt.align()), 'alloca')
                self.memcpy(st, o.base, v, const(bt.size(), 64))
                v = o.base
                self.frames[-1].append(o)
            regs[nm] = v
        if f.vararg: regs['$va'] = args[len(f.params):]
        pending = {f.entry: [(st, regs, None)]}
        heap = [(0, f.entry)]
        blocks = f.blocks
        rets = []
        visits = {}
        scans = {}
        while heap:
            _, bn = heapq.heappop(heap)
            if bn not in pending: continue
            ents = pending.pop(bn)
            blk = blocks[bn]
            visits[bn] = visits.get(bn, 0) + 1
            if visits[bn] > self.max_unroll: raise Unsupported('loop in %s exceeds %d iterations' % (f.name, self.max_unroll))
            # phis
            if blk.phis:
                for (s, r, prev) in ents:
                    vals = [(d, self.val(s, r, f, inc[prev])) for d, ty, inc in blk.phis]
                    for d, v in vals: r[d] = v
            s, r = ents[0][0], ents[0][1]
            for (s2, r2, _) in ents[1:]:
                s, r = self.merge(s, r, s2, r2)
            if s.pc is FALSE: continue
            # loop contracts
            h = None
            for lh in self.loop_handlers:
                h = lh(self, f, blk, s, r, visits[bn])
                if h is not None: break
            if h is not None:
                # list of (state, regs, target)
                for s2, r2, tgt in h:
                    pending.setdefault(tgt, []).append((s2, r2, bn)); heapq.heappush(heap, (blocks[tgt].order, tgt))
                continue
            head = bn in f.loops and len(blk.succ) == 2
            if head: snap = s.fork(TRUE), dict(r); s = s.fork(TRUE)
            out = self.exec_block(f, blk, s, r, rets, visits)
            if head and len(out) == 2:
                bit = self.bitscan(f, bn, out, scans)
                if bit is not None:
                    # the loop runs while any bit of a mask is left: split on the lowest one
                    s0, r0 = self.assume_bit(snap[0], snap[1], bit, FALSE)
                    s1, r1 = self.assume_bit(out[0][0], out[0][1], bit, TRUE)
                    s1.pc = conj(snap[0].pc, bit)
                    pending.setdefault(bn, []).append((s0, r0, None))
                    heapq.heappush(heap, (f.loops[bn] + 0.5, bn))
                    out = [(s1, r1, out[0][2])]
            for s2, r2, tgt in out:
                if s2.pc is FALSE: continue
                if tgt in pending: pending[tgt].append((s2, r2, bn))
                else:
                    pending[tgt] = [(s2, r2, bn)]
                    heapq.heappush(heap, (blocks[tgt].order, tgt))
        if not rets: return None, None
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            c = split_pc(s.pc, s2.pc)
            v = merge_val(c, v, v2)
            s = self.merge_states(s, s2, c)
        return s, v

    def bitscan(self, f, bn, out, scans):
        """the bit to split on if the loop continues exactly while some bit of a set is left"""
        blk = f.blocks[bn]
        if blk.phis: return None
        a, b = out[0][0].pc, out[1][0].pc
        ca = split_pc(a, b)
        bits = ca.args if ca.op == 'bor' else ()
        if ca.op == 'not' and ca.args[0].op == 'band' and all(x.op == 'not' for x in ca.args[0].args): bits = tuple(x.args[0] for x in ca.args[0].args)
        if 2 <= len(bits) <= 64:
            if any(x.op in ('eq', 'ult', 'slt', 'band', 'not') for x in bits): return None
            s = set(bits)
            for os in out[0][0].mem.values():
                if os.cells is None: continue
                for c in os.cells:
                    if c is not None and c[1] == 0 and c[0].op == 'concat' and c[0].w >= 32:
                        lo = [x for x in reversed(c[0].args) if x in s]
                        if len(lo) == len(s):
                            scans[bn] = True
                            return lo[0]
            return None
        if scans.get(bn) and ca.w == 1 and ca.op not in ('const', 'not', 'band'): return ca
        return None
    def assume_bit(self, st, regs, bit, val):
        n = st.fork(bit if val is TRUE else bnot(bit))
        m = {bit: val}
        for k, os in list(n.mem.items()):
            if os.cells is None: continue
            ts = []
            for c in os.cells:
                if c is not None and c[0].op not in ('const', 'var'): ts.append(c[0])
            if not ts: continue
            ts = list(dict.fromkeys(ts))
            new = dict(zip(ts, T.subst(ts, m)))
            if all(x is y for x, y in new.items()): continue
            n.mem[k] = ObjState(n, [c if c is None else (new.get(c[0], c[0]), c[1]) for c in os.cells])
        rg = {}
        for k, v in regs.items():
            if isinstance(v, list) and v and not isinstance(v[0], list) and all(hasattr(x, 'op') for x in v): rg[k] = T.subst(v, m)
            elif hasattr(v, 'op'): rg[k] = T.subst([v], m)[0]
            else: rg[k] = v
        return n, rg

    def merge(self, s, r, s2, r2):
        c = split_pc(s.pc, s2.pc)
        ns = self.merge_states(s, s2, c)
        nr = {}
        for k, v in r.items():
            if k in r2:
                w = r2[k]
                nr[k] = v if v is w else merge_val(c, v, w)
        return ns, nr
    def merge_states(self, s, s2, c):
        mem = {}
        n = State(mem, disj(s.pc, s2.pc))
        for k, a in s.mem.items():
            b = s2.mem.get(k) or self._untouched(k)
            if b is None or b is a: mem[k] = a
            else: mem[k] = self.merge_obj(n, c, a, b)
        for k, b in s2.mem.items():
            if k not in mem:
                a = self._untouched(k)
                mem[k] = b if a is None else self.merge_obj(n, c, a, b)
        for k, v in s.ghost.items():
            w = s2.ghost.get(k)
            n.ghost[k] = v if (w is None or w is v) else merge_val(c, v, w)
        for k, v in s2.ghost.items(): n.ghost.setdefault(k, v)
        return n
    def merge_obj(self, st, c, a, b):
        if a.arr is not None:
            if a.arr is b.arr: return a
            return ObjState(st, None, ite(c, a.arr, b.arr))
        ca, cb = a.cells, b.cells
        n = len(ca)
        out = list(ca)
        i = 0
        changed = False
        while i < n:
            x, y = ca[i], cb[i]
            if x is y or x == y: i += 1; continue
            changed = True
            # widest aligned group
            if x is not None and y is not None and x[1] == 0 and y[1] == 0 and x[0].w == y[0].w:
                m = x[0].w // 8
                if i + m <= n and all(ca[i+j] == (x[0], j) and cb[i+j] == (y[0], j) for j in range(m)):
                    t = ite(c, x[0], y[0])
                    for j in range(m): out[i+j] = (t, j)
                    i += m; continue
            # bytes of one operand's whole term
            g = None
            for p in (x, y):
                if p is not None and p[1] == 0:
                    m = p[0].w // 8
                    if i + m <= n and (g is None or m > g): g = m
            if g is None: g = 1
            ok = g > 1
            if ok:
                for src, p in ((ca, x), (cb, y)):
                    if p is None: ok = ok and all(src[i+j] is None for j in range(g))
            if ok and g > 1:
                ta = self._grp(ca, i, g); tb = self._grp(cb, i, g)
                t = ite(c, ta, tb)
                for j in range(g): out[i+j] = (t, j)
                i += g; continue
            ta = self._grp(ca, i, 1); tb = self._grp(cb, i, 1)
            out[i] = (ite(c, ta, tb), 0)
            i += 1
        if not changed: return a
        return ObjState(st, out)
    def _grp(self, cells, i, n):
        if cells[i] is None and all(cells[i+j] is None for j in range(n)): return T.fresh('uninit', 8*n)
        parts = []
        for j in range(n-1, -1, -1):
            c = cells[i+j]
            parts.append(T.fresh('uninit', 8) if c is None else extract(c[0], 8*c[1]+7, 8*c[1]))
        return concat(*parts) if n > 1 else parts[0]

    def val(self, st, regs, f, op):
        if op.__class__ is Local:
            try: return regs[op.name]
            except KeyError: raise Unsupported('use of unmerged value %s in %s' % (op.name, f.name))
        return self.constval(st, f.module, op)

    def exec_block(self, f, blk, st, regs, rets, visits):
        val = self.val
        for I in blk.instrs:
            self.steps += 1
            if self.steps > self.budget: raise Unsupported('step budget exhausted')
            op = I.op; a = I.a
            if op == 'load':
                regs[I.dest] = self.load(st, val(st, regs, f, a[0]), I.ty, a[1])
            elif op == 'store':
                self.store(st, val(st, regs, f, a[1]), val(st, regs, f, a[0]), I.ty, a[2])
            elif op == 'getelementptr':
                regs[I.dest] = self.gep(st, f.module, a[0], val(st, regs, f, a[1]), [(x, val(st, regs, f, x)) for x in a[2]])
            elif op == 'alloca':
                n = 1
                if a[0] is not None:
                    c = val(st, regs, f, a[0])
                    if c.op != 'const': raise Unsupported('alloca of symbolic size')
                    n = c.k
                o = self.new_obj(st, '%s:%s' % (f.name[:40], I.dest), n * I.ty.size(), a[1], 'alloca')
                self.frames[-1].append(o)
                regs[I.dest] = o.base
            elif op == 'bin':
                regs[I.dest] = self.binop(st, a[0], val(st, regs, f, a[1]), val(st, regs, f, a[2]), I.ty)
            elif op == 'cast':
                regs[I.dest] = self.cast(a[0], val(st, regs, f, a[1]), a[1].ty, I.ty)
            elif op == 'icmp':
                regs[I.dest] = self.icmp(a[0], val(st, regs, f, a[1]), val(st, regs, f, a[2]))
            elif op == 'fcmp':
                regs[I.dest] = self.lanes(lambda x, y: T.fcmp(a[0], x, y), val(st, regs, f, a[1]), val(st, regs, f, a[2]))
            elif op == 'call' or op == 'invoke':
                st2, v = self.call(f, I, st, regs)
                if st2 is None: return []
                st = st2
                if I.dest is not None: regs[I.dest] = v
                if op == 'invoke': return [(st, regs, a[3])]
            elif op == 'br':
                c, d, e = a
                if c is None: return [(st, regs, d)]
                cv = val(st, regs, f, c)
                if cv.op == 'const': return [(st, regs, d if cv.k else e)]
                if d == e: return [(st, regs, d)]
                s1 = st.fork(cv); s2 = st.fork(bnot(cv))
                chk = visits.get(blk.name, 0) >= 2 or self.always_check
                if s1.pc is not FALSE and s2.pc is not FALSE and chk and self.feasible:
                    if not self.feasible(self, s1.pc): 
                        s2.pc = st.pc
                        return [(s2, regs, e)]
                    if not self.feasible(self, s2.pc):
                        s1.pc = st.pc
                        return [(s1, regs, d)]
                return [(s1, regs, d), (s2, dict(regs), e)]
            elif op == 'ret':
                rets.append((st, None if a[0] is None else val(st, regs, f, a[0])))
                return []
            elif op == 'extractelement':
                v = val(st, regs, f, a[0]); i = val(st, regs, f, a[1])
                if i.op == 'const': regs[I.dest] = v[i.k] if i.k < len(v) else T.fresh('poison', v[0].w)
                else:
                    self.oblige('index', 'lane index below %d' % len(v), st.pc, T.ult(i, const(len(v), i.w)))
                    r = v[-1]
                    for j in range(len(v) - 2, -1, -1): r = ite(T.eq(i, const(j, i.w)), v[j], r)
                    regs[I.dest] = r
            elif op == 'insertelement':
                v = list(val(st, regs, f, a[0])); e = val(st, regs, f, a[1]); i = val(st, regs, f, a[2])
                if i.op == 'const':
                    if i.k < len(v): v[i.k] = e
                    else: v = [T.fresh('poison', x.w) for x in v]
                else:
                    self.oblige('index', 'lane index below %d' % len(v), st.pc, T.ult(i, const(len(v), i.w)))
                    for j in range(len(v)): v[j] = ite(T.eq(i, const(j, i.w)), e, v[j])
                regs[I.dest] = v
            elif op == 'shufflevector':
                v = val(st, regs, f, a[0])
                w2 = None
                n = len(v)
                out = []
                for m in a[2]:
                    if m < 0: out.append(T.fresh('undef', v[0].w))
                    elif m < n: out.append(v[m])
                    else:
                        if w2 is None: w2 = val(st, regs, f, a[1])
                        out.append(w2[m - n])
                regs[I.dest] = out
            elif op == 'select':
                c = val(st, regs, f, a[0]); x = val(st, regs, f, a[1]); y = val(st, regs, f, a[2])
                if isinstance(c, list): regs[I.dest] = [ite(p, q, r) for p, q, r in zip(c, x, y)]
                else: regs[I.dest] = merge_val(c, x, y) if c.op != 'const' else (x if c.k else y)
            elif op == 'fneg':
                regs[I.dest] = self.lanes(T.fneg, val(st, regs, f, a[0]))
            elif op == 'extractvalue':
                v = val(st, regs, f, a[0])
                for i in a[1]: v = v[i]
                regs[I.dest] = v
            elif op == 'insertvalue':
                v = val(st, regs, f, a[0]); e = val(st, regs, f, a[1])
                regs[I.dest] = self._insv(v, e, a[2])
            elif op == 'freeze': regs[I.dest] = val(st, regs, f, a[0])
            elif op == 'switch':
                v = val(st, regs, f, a[0])
                if v.op == 'const':
                    for cv, lab in a[2]:
                        if const(cv.v, v.w) is v: return [(st, regs, lab)]
                    return [(st, regs, a[1])]
                by = {}
                rest = TRUE
                for cv, lab in a[2]:
                    c = T.eq(v, const(cv.v, v.w))
                    rest = conj(rest, bnot(c))
                    by[lab] = disj(by[lab], c) if lab in by else c
                by[a[1]] = disj(by[a[1]], rest) if a[1] in by else rest
                out = []
                for lab, c in by.items():
                    s2 = st.fork(c)
                    if s2.pc is FALSE: continue
                    if self.always_check and self.feasible and not self.feasible(self, s2.pc): continue
                    out.append((s2, dict(regs), lab))
                return out
            elif op == 'unreachable':
                if not getattr(st, 'pc') is FALSE:
                    self.oblige('unreachable', 'unreachable code is not reached', st.pc, FALSE)
                return []
            elif op == 'resume': return []
            elif op == 'atomicrmw':
                p = val(st, regs, f, a[1]); v = val(st, regs, f, a[2])
                old = self.load(st, p, I.ty, 1)
                nv = {'add': T.add, 'sub': T.sub, 'xchg': lambda x, y: y, 'or': T.bor, 'and': T.band}[a[0]](old, v)
                self.store(st, p, nv, I.ty, 1)
                regs[I.dest] = old
            else: raise Unsupported('instruction %s' % I.line[:200])
        raise Unsupported('block without terminator')
    always_check = False
    def _insv(self, v, e, idx):
        v = list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = self._insv(v[idx[0]], e, idx[1:])
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, I, st, regs):
        callee, args, attrs = I.a[0], I.a[1], I.a[2]
        vals = [self.val(st, regs, f, x) for x in args]
        if isinstance(callee, tuple):
            return st, x86.inline_asm(self, st, callee[1], callee[2], vals, I.ty)
        if callee.__class__ is Local:
            p = regs[callee.name]
            if p in self.fnobjs: mod, name = self.fnobjs[p]
            else: raise Unsupported('indirect call in %s' % f.name)
        elif callee.kind == 'global': mod, name = f.module, callee.v
        else: raise Unsupported('callee %r' % callee)
        if name.startswith('llvm.'):
            return self.intrinsic(name, vals, args, attrs, I, st, f)
        h = self.externals.get(name)
        if h is not None: return h(self, st, vals)
        g = mod.functions.get(name) or self.symtab.get(name)
        if g is not None:
            for pat, h in self.contracts:
                if pat(name): 
                    r = h(self, st, vals, g)
                    if r is not None: return r
            return self.call_fn(g, vals, st)
        h = DEFAULT_EXTERNALS.get(name)
        if h is not None: return h(self, st, vals)
        if name in x86.LIBM:
            return st, x86.LIBM[name](self, st, vals)
        raise Unsupported('external function %s' % name)
    contracts = ()

    def intrinsic(self, name, v, args, attrs, I, st, f):
        n = name
        if n.startswith('llvm.lifetime'):
            # outside its scope a variable holds nothing
            for c, o, off in self.resolve(v[1]):
                if o is not None and c is TRUE and not o.arr and o.kind == 'alloca' and o.live and off.op == 'const' and off.k == 0: st.mem[o.id] = ObjState(st, [None] * o.size)
            return st, None
        if n.startswith('llvm.dbg') or n.startswith('llvm.experimental.noalias') or n.startswith('llvm.prefetch') or n.startswith('llvm.invariant') or n.startswith('llvm.va_'):
            return st, None
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, v[0], v[1], v[2], attrs[0].get('align', 1), attrs[1].get('align', 1))
            return st, None
        if n.startswith('llvm.memset'):
            self.memset(st, v[0], v[1], v[2]); return st, None
        if n == 'llvm.trap' or n == 'llvm.ubsantrap':
            self.events.append(('trap', st.pc, self.callstack[-1])); return None, None
        if n.startswith('llvm.expect'): return st, v[0]
        if n.startswith('llvm.assume'):
            self.oblige('assume', 'asserted assumption holds', st.pc, v[0]); return st, None
        if n.startswith('llvm.is.constant'):
            if v[0].__class__ is not list and v[0].op == 'const' and self.const_p is None: return st, TRUE
            return st, T.fresh('is_constant', 1)
        if n.startswith('llvm.launder') or n.startswith('llvm.strip.inv'): return st, v[0]
        if n.startswith('llvm.objectsize'): return st, const(-1, I.ty.n)
        if n.startswith('llvm.stacksave'): return st, const(0, 64)
        if n.startswith('llvm.stackrestore') or n.startswith('llvm.donothing'): return st, None
        if n.startswith('llvm.masked.'):
            return self.masked(n, v, args, I, st)
        r = x86.intrinsic(self, st, n, v, args, I)
        return st, r
    def masked(self, n, v, args, I, st):
        if n.startswith('llvm.masked.load'):
            p, al, mask, pas = v
            e = I.ty.elem.bits() // 8
            return st, [ite(m, self.load_scalar(st, T.add(p, const(i*e, 64)), e, 1, guard=m), q) if m is not FALSE else q for i, (m, q) in enumerate(zip(mask, pas))]
        if n.startswith('llvm.masked.store'):
            val, p, al, mask = v
            for i, (m, x) in enumerate(zip(mask, val)):
                if m is FALSE: continue
                self.store_scalar(st, T.add(p, const(i * x.w // 8, 64)), x, 1, guard=m if m is not TRUE else None)
            return st, None
        raise Unsupported(n)

def relane(src, w):
    sw = src[0].w
    if sw == w: return list(src)
    if sw > w:
        out = []
        for t in src:
            for i in range(sw // w): out.append(T.extract(t, w*(i+1)-1, w*i))
        return out
    k = w // sw
    return [concat(*reversed(src[i*k:(i+1)*k])) for i in range(len(src)*sw // w)]
x86.relane = relane
x86.Unsupported = Unsupported

def _noop(ex, st, v): return st, None
def _throw(ex, st, v):
    ex.events.append(('throw', st.pc, ex.callstack[-1] if ex.callstack else '')); return None, None
def _abort(ex, st, v):
    ex.events.append(('abort', st.pc, ex.callstack[-1] if ex.callstack else '')); return None, None
def _memcpy_fn(ex, st, v):
    ex.memcpy(st, v[0], v[1], v[2]); return st, v[0]
def _memset_fn(ex, st, v):
    ex.memset(st, v[0], T.trunc(v[1], 8), v[2]); return st, v[0]
def _cxa_alloc(ex, st, v):
    o = ex.new_obj(st, 'exception', v[0].k if v[0].op == 'const' else 64, 16, 'heap')
    return st, o.base
DEFAULT_EXTERNALS = {
    '__cxa_throw': _throw, '_ZSt17__throw_bad_allocv': _throw, '_ZSt20__throw_length_errorPKc': _throw, '_ZSt28__throw_bad_array_new_lengthv': _throw,
    '_ZSt24__throw_out_of_range_fmtPKcz': _throw, '_ZSt20__throw_out_of_rangePKc': _throw,
    '__cxa_rethrow': _throw,
    '__cxa_allocate_exception': _cxa_alloc, '__cxa_free_exception': _noop,
    '_ZSt9terminatev': _abort, 'abort': _abort, '__assert_fail': _abort, '__clang_call_terminate': _abort,
    'memcpy': _memcpy_fn, 'memmove': _memcpy_fn, 'memset': _memset_fn,
    '__cxa_atexit': lambda ex, st, v: (st, const(0, 32)),
    '_ZNSt9bad_allocC1Ev': _noop, '_ZNSt9exceptionC2Ev': _noop,
    'printf': lambda ex, st, v: (st, T.fresh('printf', 32)), 'puts': lambda ex, st, v: (st, T.fresh('puts', 32)),
    '__cxa_guard_acquire': lambda ex, st, v: (st, T.fresh('guard', 32)), '__cxa_guard_release': _noop,
}

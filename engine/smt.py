"""Discharging of obligations with z3 (bit-vectors, arrays, floating point) and cvc5 as second opinion."""
import hashlib, os
import time, os, subprocess, tempfile
import z3
import term as T

class Lower:
    """lowers terms to z3; fp='uf' treats floating-point arithmetic as uninterpreted functions, fp='ieee' is exact"""
    def __init__(self, fp, absmul=False):
        self.fp = fp; self.absmul = absmul
        self.cache = {}
        self.side = []
        self.abstract = False      # an uninterpreted symbol was used
        self.ufs = {}
        self.vars = {}
    def b(self, t):
        z = self.get(t)
        return z
    def uf(self, name, w, args):
        key = (name, w, tuple(a.sort().name() + str(a.sort()) for a in args))
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function('uf%d_%s' % (len(self.ufs), name), *[a.sort() for a in args], z3.BitVecSort(w) if w > 1 else z3.BoolSort())
            self.ufs[key] = f
        return f(*args)
    def fpsort(self, w): return z3.Float32() if w == 32 else z3.Float64()
    def tofp(self, z, w): return z3.fpBVToFP(z, self.fpsort(w))
    def frombits(self, fpv, w, t):
        r = z3.BitVec('fp!%d' % t.id, w)
        self.side.append(z3.fpBVToFP(r, self.fpsort(w)) == fpv)
        return r
    def get(self, root):
        cache = self.cache
        if root in cache: return cache[root]
        for t in T.topo([root]):
            if t in cache: continue
            cache[t] = self.lower(t, [cache[a] for a in t.args])
        return cache[root]
    def nan(self, z, w):
        e, s = T.FMT[w]
        m = z & z3.BitVecVal((1 << (w-1)) - 1, w)
        return z3.UGT(m, z3.BitVecVal(((1 << e) - 1) << (s-1), w))
    def lower(self, t, a):
        op = t.op; w = t.w
        if op == 'const':
            if w == 1: return z3.BoolVal(bool(t.k))
            return z3.BitVecVal(t.k, w)
        if op == 'var':
            if w == 'A': z = z3.Array(str(t.k), z3.BitVecSort(64), z3.BitVecSort(8))
            elif w == 1: z = z3.Bool(str(t.k))
            else: z = z3.BitVec(str(t.k), w)
            self.vars[t] = z
            return z
        if op == 'lin':
            r = None
            for c, x in zip(t.k[0], a):
                if c == 1: y = x
                elif c == (1 << w) - 1:
                    r = -x if r is None else r - x
                    continue
                else: y = x * z3.BitVecVal(c, w)
                r = y if r is None else r + y
            if t.k[1]: r = r + z3.BitVecVal(t.k[1], w)
            return r
        if op == 'extract':
            z = a[0]
            if t.args[0].w == 1: return z
            r = z3.Extract(t.k[0], t.k[1], z)
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op == 'concat':
            return z3.Concat(*[self.asbv(x, y.w) for x, y in zip(a, t.args)])
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'not': return z3.Not(a[0]) if w == 1 else ~a[0]
        if op == 'band': return z3.And(*a)
        if op == 'bor': return z3.Or(*a)
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return z3.Xor(a[0], a[1]) if w == 1 else a[0] ^ a[1]
        if self.absmul and op in ('mul', 'udiv', 'sdiv') and w >= 12:
            x, y = t.args
            if x.op != 'const' and y.op != 'const':
                self.abstract = True
                r = self.uf(op, w, a)
                if op != 'mul':
                    one = z3.BitVecVal(1, w); zero = z3.BitVecVal(0, w)
                    self.side.append(z3.Implies(a[1] == one, r == a[0]))
                    if op == 'udiv': self.side.append(z3.Implies(a[1] != zero, z3.ULE(r, a[0])))
                    if op == 'udiv': self.side.append(z3.Implies(z3.UGT(a[1], one), z3.ULE(r, z3.LShR(a[0], one))))
                return r
        if op == 'mul': return a[0] * a[1]
        if op == 'udiv': return z3.UDiv(a[0], a[1])
        if op == 'sdiv': return a[0] / a[1]
        if op == 'urem': return z3.URem(a[0], a[1])
        if op == 'srem': return z3.SRem(a[0], a[1])
        if op == 'shl': return a[0] << a[1]
        if op == 'lshr': return z3.LShR(a[0], a[1])
        if op == 'ashr': return a[0] >> a[1]
        if op == 'eq': return a[0] == a[1]
        if op == 'ult': return z3.ULT(a[0], a[1])
        if op == 'slt': return a[0] < a[1]
        if op in ('fnan', 'feq', 'flt', 'fle'):
            ww = t.args[0].w
            if op == 'fnan': return self.nan(a[0], ww)
            x, y = a
            ok = z3.And(z3.Not(self.nan(x, ww)), z3.Not(self.nan(y, ww)))
            mz = z3.BitVecVal((1 << (ww-1)) - 1, ww)
            bothz = ((x | y) & mz) == 0
            if op == 'feq': return z3.And(ok, z3.Or(x == y, bothz))
            sx = z3.Extract(ww-1, ww-1, x) == 1; sy = z3.Extract(ww-1, ww-1, y) == 1
            # ordering of bit patterns
            lt = z3.And(z3.Not(bothz), z3.If(sx, z3.If(sy, z3.ULT(y, x), z3.BoolVal(True)), z3.If(sy, z3.BoolVal(False), z3.ULT(x, y))))
            if op == 'flt': return z3.And(ok, lt)
            return z3.And(ok, z3.Or(lt, x == y, bothz))
        if op == 'select':
            arr, off = a
            return z3.Concat(*[z3.Select(arr, off + i) for i in range(w // 8 - 1, -1, -1)]) if w > 8 else z3.Select(arr, off)
        if op == 'astore':
            arr, off, v = a
            n = t.args[2].w // 8
            for i in range(n): arr = z3.Store(arr, off + i, z3.Extract(8*i+7, 8*i, v) if n > 1 else v)
            return arr
        if op == 'uf':
            self.abstract = True
            return self.uf(t.k, w, a)
        # floating-point arithmetic
        if self.fp == 'uf':
            self.abstract = True
            return self.uf(op + (str(t.k) if t.k is not None else ''), w, a)
        rm = z3.RNE()
        if op in ('fadd', 'fmul', 'fdiv'):
            x, y = self.tofp(a[0], w), self.tofp(a[1], w)
            f = {'fadd': z3.fpAdd, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return self.frombits(f(rm, x, y), w, t)
        if op == 'fsqrt': return self.frombits(z3.fpSqrt(rm, self.tofp(a[0], w)), w, t)
        if op == 'ffma': return self.frombits(z3.fpFMA(rm, *[self.tofp(x, w) for x in a]), w, t)
        if op == 'fround':
            m = {'rne': z3.RNE(), 'rna': z3.RNA(), 'rtz': z3.RTZ(), 'rup': z3.RTP(), 'rdn': z3.RTN()}[t.k]
            return self.frombits(z3.fpRoundToIntegral(m, self.tofp(a[0], w)), w, t)
        if op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            z = self.asbv(a[0], t.args[0].w)
            return self.frombits(f(rm, z, self.fpsort(w)), w, t)
        if op == 'fcvt': return self.frombits(z3.fpFPToFP(rm, self.tofp(a[0], t.args[0].w), self.fpsort(w)), w, t)
        if op in ('fptosi', 'fptoui'):
            ww = t.args[0].w
            x = self.tofp(a[0], ww)
            m = {'rne': z3.RNE(), 'rtz': z3.RTZ()}[t.k]
            r = z3.fpRoundToIntegral(m, x)
            S = self.fpsort(ww)
            import struct
            def cf(v): return z3.fpBVToFP(z3.BitVecVal(T.f2bits(float(v), ww), ww), S)
            if op == 'fptosi':
                inr = z3.And(z3.fpLT(r, cf(2 ** (w-1))), z3.fpGEQ(r, cf(-2 ** (w-1))))
                return z3.If(inr, z3.fpToSBV(z3.RTZ(), r, z3.BitVecSort(w)), z3.BitVecVal(1 << (w-1), w))
            inr = z3.And(z3.fpLT(r, cf(2 ** w)), z3.fpGT(r, cf(-1)))
            return z3.If(inr, z3.fpToUBV(z3.RTZ(), r, z3.BitVecSort(w)), z3.BitVecVal((1 << w) - 1, w))
        if op == 'frem':
            self.abstract = True
            return self.uf(op, w, a)
        raise KeyError(op)
    def asbv(self, z, w):
        return z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else z

FPOPS = {'fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround', 'sitofp', 'uitofp', 'fcvt', 'fptosi', 'fptoui', 'frem', 'uf'}

class Result:
    __slots__ = ('status', 'backend', 'model', 'time', 'precise')
    def __init__(self, status, backend, model=None, time=0.0, precise=True):
        self.status = status; self.backend = backend; self.model = model; self.time = time; self.precise = precise

def solve(f, timeout_ms=10000, second=True, axioms=()):
    """is f (a width-1 term) satisfiable?  unsat / sat (with model) / unknown"""
    if f is T.FALSE: return Result('unsat', 'rewriting')
    if f is T.TRUE: return Result('sat', 'rewriting', {})
    t0 = time.time()
    ops = set(t.op for t in T.topo([f]))
    hasfp = bool(ops & FPOPS)
    modes = []
    if ops & {'mul', 'udiv', 'sdiv'}: modes.append(('uf', True))
    modes.append(('uf', False))
    if hasfp and (ops & (FPOPS - {'uf'})): modes.append(('ieee', False))
    last = None
    for full in modes:
        mode = full[0]
        lo = Lower(*full)
        z = lo.get(f)
        s = z3.Solver()
        to = timeout_ms if full == modes[-1] else min(timeout_ms, 3000)
        s.set('timeout', int(to))
        s.add(z)
        for x in lo.side: s.add(x)
        for x in axioms: s.add(lo.get(x))
        split = mode == 'ieee' and [v for v in lo.vars if v.w == 64] if len(lo.vars) == 1 else None
        if split:
            # one operand: by magnitude first
            s.set('timeout', 5000)
            r = s.check()
            if r == z3.unknown:
                e = z3.Extract(62, 52, lo.vars[split[0]]); B = lambda k: z3.BitVecVal(k, 11)
                r = z3.unsat; given = s.assertions()
                for c in [z3.ULT(e, B(1021)), z3.UGT(e, B(1087))] + [e == B(k) for k in range(1021, 1088)]:
                    s = z3.Solver(); s.set('timeout', int(to)); s.add(given); s.add(c)
                    r = s.check()
                    if r != z3.unsat: break
        else: r = s.check()
        if r == z3.unsat: return Result('unsat', 'z3' if mode == 'uf' else 'z3-fp', time=time.time()-t0)
        if r == z3.sat:
            m = s.model()
            mod = {}
            for v, zz in lo.vars.items():
                val = m.eval(zz, model_completion=True)
                if v.w == 1: mod[v] = 1 if z3.is_true(val) else 0
                elif v.w == 'A': mod[v] = arr_model(m, val)
                else: mod[v] = val.as_long()
            last = Result('sat', 'z3' if mode == 'uf' else 'z3-fp', mod, time.time()-t0, precise=not lo.abstract)
            if not lo.abstract: return last
        else:
            last = Result('unknown', 'z3', last.model if last else None, time.time()-t0)
            if full == modes[-1] and second:
                r2 = cvc5_check(s, timeout_ms)
                if r2 == 'unsat': return Result('unsat', 'cvc5', time=time.time()-t0)
                last.time = time.time() - t0
    return last

COMM = {'band', 'bor', 'bxor', 'eq', 'mul', 'lin', 'fadd', 'fmul', 'feq'}
def canonical(f):
    """a text that is equal for formulas that differ only in the names of their variables"""
    order = T.topo([f])
    shape = {}
    for t in order:
        a = [shape[x] for x in t.args]
        k = t.k
        if t.op == 'var': k = None
        if t.op == 'lin':
            a = sorted(zip(t.k[0], a)); k = t.k[1]
        elif t.op in COMM: a.sort()
        shape[t] = hashlib.blake2b(repr((t.op, t.w, k, a)).encode(), digest_size=12).digest()
    num = {}; out = []; names = {}
    def walk(t0):
        st = [(t0, None)]
        while st:
            t, args = st.pop()
            if t in num: continue
            if args is None:
                args = list(t.args); ks = t.k
                if t.op == 'lin':
                    p = sorted(zip(t.k[0], args), key=lambda q: (q[0], shape[q[1]])); ks = (tuple(c for c, _ in p), t.k[1]); args = [x for _, x in p]
                elif t.op in COMM: args.sort(key=lambda x: shape[x])
                if t.op == 'var': ks = names.setdefault(t.k, len(names))
                st.append((t, (args, ks)))
                for x in reversed(args):
                    if x not in num: st.append((x, None))
            else:
                a, ks = args
                num[t] = len(num)
                out.append('%s %s %s %s' % (t.op, t.w, ks, [num[x] for x in a]))
    walk(f)
    return '\n'.join(out)
LEMMAS = None        # directory of the obligations discharged in this run, by canonical text
def solve_shared(f, timeout_ms=10000):
    """solve(), but formulas equal up to variable names are discharged once per run"""
    if f.op == 'const' or LEMMAS is None: return solve(f, timeout_ms)
    t0 = time.time()
    h = hashlib.sha256(canonical(f).encode()).hexdigest()
    p = os.path.join(LEMMAS, h); lock = p + '.lock'
    mine = False
    while not mine:
        try:
            with open(p) as fh: b = fh.read()
            if b: return Result('unsat', b, time=0.0)
        except FileNotFoundError: pass
        try: os.close(os.open(lock, os.O_CREAT | os.O_EXCL)); mine = True
        except FileExistsError:
            try: old = time.time() - os.stat(lock).st_mtime
            except FileNotFoundError: continue
            if old > 4 * timeout_ms / 1000: break
            time.sleep(0.05)
    try:
        r = solve(f, timeout_ms)
        if r.status == 'unsat':
            with open(p + '.%d' % os.getpid(), 'w') as fh: fh.write(r.backend)
            os.rename(p + '.%d' % os.getpid(), p)
    finally:
        if mine:
            try: os.unlink(lock)
            except FileNotFoundError: pass
    return r

def arr_model(m, val):
    """python function of a z3 array value"""
    stores = {}
    cur = val
    default = 0
    try:
        while True:
            k = cur.decl().kind()
            if k == z3.Z3_OP_STORE:
                i = cur.arg(1).as_long()
                stores.setdefault(i, cur.arg(2).as_long())
                cur = cur.arg(0)
            elif k == z3.Z3_OP_CONST_ARRAY:
                default = cur.arg(0).as_long(); break
            elif k == z3.Z3_OP_AS_ARRAY:
                f = z3.get_as_array_func(cur)
                fi = m[f]
                for j in range(fi.num_entries()):
                    e = fi.entry(j)
                    stores.setdefault(e.arg_value(0).as_long(), e.value().as_long())
                default = fi.else_value().as_long() if z3.is_bv_value(fi.else_value()) else 0
                break
            else: break
    except Exception: pass
    return lambda o: stores.get(o, default)

def cvc5_check(s, timeout_ms):
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        # z3 prints (set-info ..) and (check-sat)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt); fn = f.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fn], capture_output=True, text=True, timeout=timeout_ms/1000 + 5)
            out = p.stdout.strip().split('\n')
            return out[-1] if out else 'unknown'
        finally: os.unlink(fn)
    except Exception: return 'unknown'

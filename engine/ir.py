"""Parser for textual LLVM 18 IR (the subset clang's front end emits)."""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%"(?:[^"])*"|%[-\w.$]+)
 | (?P<glo>@"(?:[^"])*"|@[-\w.$]+)
 | (?P<meta>![-\w.$]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

class IRError(Exception): pass

class Ty:
    __slots__ = ('kind', 'n', 'elem', 'fields', 'packed', 'name', '_size', '_align', '_offs')
    def __init__(self, kind, n=0, elem=None, fields=None, packed=False, name=None):
        self.kind = kind; self.n = n; self.elem = elem; self.fields = fields; self.packed = packed; self.name = name
        self._size = None; self._align = None; self._offs = None
    def __repr__(self):
        k = self.kind
        if k == 'i': return 'i%d' % self.n
        if k == 'f': return {32: 'float', 64: 'double', 80: 'x86_fp80', 16: 'half', 128: 'fp128'}[self.n]
        if k == 'v': return '<%d x %r>' % (self.n, self.elem)
        if k == 'a': return '[%d x %r]' % (self.n, self.elem)
        if k == 's': return '{' + ', '.join(map(repr, self.fields)) + '}'
        return k
    def bits(self):
        """width of a scalar"""
        if self.kind in 'if': return self.n
        if self.kind == 'ptr': return 64
        raise IRError('not scalar: %r' % self)
    def is_scalar(self): return self.kind in ('i', 'f', 'ptr')
    def align(self):
        if self._align is None:
            k = self.kind
            if k == 'i':
                a = 1
                while a * 8 < self.n: a *= 2
                self._align = min(a, 16)
            elif k == 'f': self._align = 16 if self.n in (80, 128) else self.n // 8
            elif k == 'ptr': self._align = 8
            elif k == 'v':
                s = (self.elem.bits() * self.n + 7) // 8
                a = 1
                while a < s: a *= 2
                self._align = a
            elif k == 'a': self._align = self.elem.align()
            elif k == 's': self._align = 1 if self.packed else max([f.align() for f in self.fields] or [1])
            else: raise IRError('align of %r' % self)
        return self._align
    def store_size(self):
        if self.kind == 'i': return (self.n + 7) // 8
        if self.kind == 'f': return 10 if self.n == 80 else self.n // 8
        if self.kind == 'v': return (self.elem.bits() * self.n + 7) // 8
        return self.size()
    def size(self):
        """alloc size"""
        if self._size is None:
            k = self.kind
            if k == 's':
                o = 0; offs = []
                for f in self.fields:
                    a = 1 if self.packed else f.align()
                    o = (o + a - 1) // a * a
                    offs.append(o)
                    o += f.size()
                a = self.align()
                self._size = (o + a - 1) // a * a
                self._offs = offs
            elif k == 'a': self._size = self.n * self.elem.size()
            elif k == 'ptr': self._size = 8
            else:
                a = self.align(); s = self.store_size()
                self._size = (s + a - 1) // a * a
        return self._size
    def offsets(self):
        self.size()
        return self._offs

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata'); TOKENTY = Ty('token')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('i', n)
    return _ints[n]
FLOAT = Ty('f', 32); DOUBLE = Ty('f', 64); HALF = Ty('f', 16); X86FP80 = Ty('f', 80); FP128 = Ty('f', 128)

class Cursor:
    __slots__ = ('t', 'k', 'i')
    def __init__(self, line):
        self.t = []; self.k = []; self.i = 0
        for m in TOK.finditer(line):
            self.t.append(m.group()); self.k.append(m.lastgroup)
        self.t.append(None); self.k.append(None)
    def peek(self): return self.t[self.i]
    def next(self):
        v = self.t[self.i]; self.i += 1
        return v
    def accept(self, s):
        if self.t[self.i] == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if self.t[self.i] != s: raise IRError('expected %r got %r in %s' % (s, self.t[self.i], ' '.join(x for x in self.t[:-1])[:300]))
        self.i += 1

class Const:
    """constant operand: kind in int,float(bits),null,undef,zero,agg,global,expr,str"""
    __slots__ = ('kind', 'ty', 'v')
    def __init__(self, kind, ty, v=None): self.kind = kind; self.ty = ty; self.v = v
    def __repr__(self): return 'Const(%s,%r,%r)' % (self.kind, self.ty, self.v)
class Local:
    __slots__ = ('name', 'ty')
    def __init__(self, name, ty): self.name = name; self.ty = ty
    def __repr__(self): return self.name

class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'line')
    def __init__(self, op, dest, ty, a, line): self.op = op; self.dest = dest; self.ty = ty; self.a = a; self.line = line
    def __repr__(self): return '%s = %s %r %r' % (self.dest, self.op, self.ty, self.a)

class Block:
    __slots__ = ('name', 'phis', 'instrs', 'succ', 'order')
    def __init__(self, name): self.name = name; self.phis = []; self.instrs = []; self.succ = []; self.order = 0

class Global:
    __slots__ = ('name', 'ty', 'init', 'constant', 'align', 'linkage', 'module', 'external')
class Function:
    __slots__ = ('name', 'module', 'lines', 'ret', 'params', 'blocks', 'entry', 'vararg', 'linkage', 'parsed', 'nblocks', 'hdr', 'loops')

LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external'}
SKIPATTR = {'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport', 'dllexport', 'thread_local', 'unnamed_addr', 'local_unnamed_addr',
            'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'returned', 'readonly', 'readnone', 'writeonly', 'immarg', 'nest', 'swiftself', 'noreturn', 'nounwind',
            'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast',
            'inalloca', 'allocalign', 'allocptr', 'nofree', 'noext', 'externally_initialized', 'nofpclass', 'dead_on_unwind', 'writable'}
PATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'preallocated', 'elementtype', 'nofpclass', 'range', 'memory', 'addrspace'}

class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.functions = {}
        self.declares = set()
        self.ctors = []
        self._scan(text)
    def _scan(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                f = Function()
                f.hdr = l; f.lines = lines[i+1:j]; f.module = self; f.parsed = False
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\s*\(', l)
                f.name = m.group(1)[1:].strip('"')
                self.functions[f.name] = f
                i = j + 1; continue
            if l.startswith('declare '):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\s*\(', l)
                self.declares.add(m.group(1)[1:].strip('"'))
            elif l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                self.typedefs[nm] = body
            elif l.startswith('@'):
                self._global(l)
            i += 1
    def _global(self, l):
        c = Cursor(l)
        g = Global(); g.module = self
        g.name = c.next()[1:].strip('"')
        c.expect('=')
        g.linkage = None; g.external = False
        while True:
            t = c.peek()
            if t in LINK:
                g.linkage = t; c.next()
                if t in ('external', 'extern_weak'): g.external = True
            elif t in SKIPATTR:
                c.next()
                if t == 'thread_local' and c.peek() == '(':
                    while c.next() != ')': pass
            elif t == 'alias' or t == 'ifunc': return
            elif t == 'addrspace':
                c.next(); c.expect('('); c.next(); c.expect(')')
            else: break
        t = c.next()
        g.constant = t == 'constant'
        if t not in ('constant', 'global'): raise IRError('global: ' + l[:200])
        g.ty = self.type(c)
        g.init = None
        if not g.external: g.init = self.value(c, g.ty)
        g.align = None
        while c.peek() is not None:
            if c.next() == 'align': g.align = int(c.next()); break
        if g.align is None:
            try: g.align = g.ty.align()
            except IRError: g.align = 1
        self.globals[g.name] = g
    # ---- types
    def type(self, c):
        t = c.next()
        k = c.k[c.i-1]
        if k == 'loc':
            ty = self.types.get(t)
            if ty is None:
                body = self.typedefs.get(t)
                if body is None or body.strip() == 'opaque':
                    ty = Ty('opaque', name=t)
                    self.types[t] = ty
                else:
                    ty = Ty('s', name=t)
                    self.types[t] = ty
                    b = self.type(Cursor(body))
                    ty.kind = b.kind; ty.fields = b.fields; ty.packed = b.packed; ty.n = b.n; ty.elem = b.elem
        elif t == 'void': ty = VOID
        elif t == 'ptr':
            ty = PTR
            if c.peek() == 'addrspace':
                c.next(); c.expect('('); c.next(); c.expect(')')
        elif t == 'float': ty = FLOAT
        elif t == 'double': ty = DOUBLE
        elif t == 'half' or t == 'bfloat': ty = HALF
        elif t == 'x86_fp80': ty = X86FP80
        elif t == 'fp128': ty = FP128
        elif t == 'label': ty = LABEL
        elif t == 'metadata': ty = META
        elif t == 'token': ty = TOKENTY
        elif t == '<':
            if c.peek() == '{':
                c.next()
                fs = self._fields(c, '}')
                c.expect('>')
                ty = Ty('s', fields=fs, packed=True)
            else:
                n = int(c.next()); c.expect('x')
                e = self.type(c); c.expect('>')
                ty = Ty('v', n, e)
        elif t == '[':
            n = int(c.next()); c.expect('x')
            e = self.type(c); c.expect(']')
            ty = Ty('a', n, e)
        elif t == '{':
            ty = Ty('s', fields=self._fields(c, '}'))
        elif re.fullmatch(r'i\d+', t): ty = INT(int(t[1:]))
        else: raise IRError('type %r in %s' % (t, ' '.join(str(x) for x in c.t)[:300]))
        # function types in calls: T (args)
        return ty
    def _fields(self, c, close):
        fs = []
        if c.accept(close): return fs
        while True:
            fs.append(self.type(c))
            if c.accept(close): return fs
            c.expect(',')
    # ---- values
    def value(self, c, ty):
        t = c.next(); k = c.k[c.i-1]
        if k == 'loc': return Local(t, ty)
        if k == 'glo': return Const('global', ty, t[1:].strip('"'))
        if k == 'num':
            if ty.kind == 'f': return Const('float', ty, self._float(t, ty))
            return Const('int', ty, int(t))
        if t == 'true': return Const('int', ty, 1)
        if t == 'false': return Const('int', ty, 0)
        if t == 'null': return Const('int', ty, 0)
        if t in ('undef', 'poison'): return Const('undef', ty)
        if t == 'zeroinitializer': return Const('zero', ty)
        if t == 'none': return Const('undef', ty)
        if k == 'str':
            s = t[2:-1] if t.startswith('c') else t[1:-1]
            return Const('str', ty, self._bytes(s))
        if t in ('<', '[', '{'):
            close = {'<': '>', '[': ']', '{': '}'}[t]
            packed = False
            if t == '<' and c.peek() == '{':
                c.next(); packed = True; close = '}'
            vs = []
            if not c.accept(close):
                while True:
                    et = self.type(c)
                    vs.append(self.value(c, et))
                    if c.accept(close): break
                    c.expect(',')
            if packed: c.expect('>')
            return Const('agg', ty, vs)
        if t == 'splat':
            c.expect('('); et = self.type(c); v = self.value(c, et); c.expect(')')
            return Const('agg', ty, [v] * ty.n)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return self.value(c, ty)
        if t == 'blockaddress':
            raise IRError('blockaddress')
        # constant expressions
        flags = []
        while c.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange', 'nusw'): flags.append(c.next())
        if t == 'getelementptr':
            c.expect('(')
            while c.peek() in ('inbounds', 'nuw', 'nusw'): c.next()
            st = self.type(c); c.expect(',')
            ops = []
            while True:
                while c.peek() == 'inrange': c.next()
                et = self.type(c); ops.append(self.value(c, et))
                if c.accept(')'): break
                c.expect(',')
            return Const('expr', ty, ('getelementptr', st, ops))
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            c.expect('('); et = self.type(c); v = self.value(c, et)
            c.expect('to'); rt = self.type(c); c.expect(')')
            return Const('expr', rt, ('cast', t, v))
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            c.expect('('); et = self.type(c); a = self.value(c, et); c.expect(',')
            et2 = self.type(c); b = self.value(c, et2); c.expect(')')
            return Const('expr', ty, ('bin', t, a, b))
        if t in ('icmp', 'fcmp'):
            pred = c.next()
            c.expect('('); et = self.type(c); a = self.value(c, et); c.expect(',')
            et2 = self.type(c); b = self.value(c, et2); c.expect(')')
            return Const('expr', ty, (t, pred, a, b))
        if t == 'select':
            c.expect('(')
            ops = []
            while True:
                et = self.type(c); ops.append(self.value(c, et))
                if c.accept(')'): break
                c.expect(',')
            return Const('expr', ty, ('select', *ops))
        raise IRError('value %r in %s' % (t, ' '.join(str(x) for x in c.t[:-1])[:400]))
    def _float(self, t, ty):
        if t.startswith('0x'):
            if t[2] in 'KLMHR':
                return int(t[3:], 16)
            bits = int(t, 16)
            if ty.n == 64: return bits
            if ty.n == 32:
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                if d != d:
                    # NaN: keep sign and payload top bits
                    return ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
                return struct.unpack('<I', struct.pack('<f', d))[0]
            raise IRError('float const')
        d = float(t)
        if ty.n == 64: return struct.unpack('<Q', struct.pack('<d', d))[0]
        if ty.n == 32: return struct.unpack('<I', struct.pack('<f', d))[0]
        return 0
    def _bytes(self, s):
        out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i+1] == '\\': out.append(92); i += 2
                else: out.append(int(s[i+1:i+3], 16)); i += 3
            else: out.append(ord(s[i])); i += 1
        return bytes(out)
    def tv(self, c):
        ty = self.type(c)
        self.pattrs(c)
        return self.value(c, ty)
    def pattrs(self, c):
        info = {}
        while True:
            t = c.peek()
            if t in PATTR:
                c.next()
                if t == 'align':
                    if c.accept('('): info['align'] = int(c.next()); c.expect(')')
                    else: info['align'] = int(c.next())
                elif c.accept('('):
                    if t in ('byval', 'sret', 'byref', 'elementtype'):
                        info[t] = self.type(c)
                        c.expect(')')
                    else:
                        d = 1
                        while d:
                            x = c.next()
                            if x == '(': d += 1
                            elif x == ')': d -= 1
            elif t in SKIPATTR: c.next(); info[t] = True
            elif t is not None and c.k[c.i] == 'str':
                c.next()
                if c.accept('='): c.next()
            else: return info
    # ---- functions
    def func(self, name):
        f = self.functions[name]
        if not f.parsed: self._parse(f)
        return f
    def _parse(self, f):
        c = Cursor(f.hdr)
        c.expect('define')
        f.linkage = None
        while True:
            t = c.peek()
            if t in LINK: f.linkage = t; c.next()
            elif t in SKIPATTR: c.next()
            elif t in PATTR: self.pattrs(c)
            else: break
        f.ret = self.type(c)
        c.next()  # name
        c.expect('(')
        f.params = []; f.vararg = False
        if not c.accept(')'):
            n = 0
            while True:
                if c.accept('...'): f.vararg = True
                else:
                    ty = self.type(c)
                    at = self.pattrs(c)
                    if c.k[c.i] == 'loc': nm = c.next()
                    else: nm = '%%%d' % n
                    n += 1
                    f.params.append((nm, ty, at))
                if c.accept(')'): break
                c.expect(',')
        f.blocks = {}
        # entry label: unnamed numbering = number of unnamed params
        cur = None
        first = True
        i = 0; lines = f.lines
        while i < len(lines):
            l = lines[i]; i += 1
            if not l or l.lstrip().startswith(';'): continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                nm = '%' + m.group(1)
                cur = Block(nm); f.blocks[nm] = cur
                if first: f.entry = nm; first = False
                continue
            if first:
                nm = '%' + str(len(f.params)) if all(re.fullmatch(r'%\d+', p[0]) for p in f.params) else '%entry'
                cur = Block(nm); f.blocks[nm] = cur; f.entry = nm; first = False
            if l.rstrip().endswith('[') and ' switch ' in l or l.lstrip().startswith('switch '):
                while ']' not in lines[i-1].split('; ')[0] or lines[i-1].strip() != ']' and not l.rstrip().endswith(']'):
                    l += ' ' + lines[i]; i += 1
                    if lines[i-1].strip() == ']': break
            elif ' invoke ' in l and ' unwind ' not in l or l.lstrip().startswith('invoke ') and ' unwind ' not in l:
                l += ' ' + lines[i]; i += 1
            elif 'landingpad' in l:
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i]): l += ' ' + lines[i]; i += 1
            self._instr(cur, l.strip(), f)
        self._order(f)
        f.parsed = True
    def _order(self, f):
        """reverse post order in which a loop's body precedes its exits"""
        blocks = f.blocks
        # post order with successors: DFS
        def rpo(prefer):
            seen = set(); po = []
            st = [(f.entry, iter(prefer(f.entry)))]
            seen.add(f.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(prefer(s))))
                        break
                else:
                    po.append(b); st.pop()
            return po[::-1]
        order = rpo(lambda b: blocks[b].succ)
        idx = {b: i for i, b in enumerate(order)}
        # natural loops
        preds = {b: [] for b in order}
        for b in order:
            for s in blocks[b].succ: preds[s].append(b)
        loops = {}
        for b in order:
            for s in blocks[b].succ:
                if idx[s] <= idx[b]:
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x)
                        stack.extend(preds[x])
        # depth-based: successors leaving the innermost loop are explored first (so they come later in RPO)
        inner = {}
        for h, body in sorted(loops.items(), key=lambda p: -len(p[1])):
            for x in body: inner.setdefault(x, []).append((h, body))
        def prefer(b):
            ls = inner.get(b, [])
            def key(s):
                # number of enclosing loops of b that s leaves: more -> explored earlier
                return -sum(1 for h, body in ls if s not in body)
            return sorted(blocks[b].succ, key=key)
        order = rpo(prefer)
        for i, b in enumerate(order): blocks[b].order = i
        f.nblocks = len(order)
        f.loops = {h: max(blocks[b].order for b in body) for h, body in loops.items()}
    def _instr(self, blk, l, f):
        c = Cursor(l)
        dest = None
        if c.k[0] == 'loc' and c.t[1] == '=':
            dest = c.next(); c.next()
        op = c.next()
        while op in ('tail', 'musttail', 'notail'): op = c.next()
        I = None
        V = self.value; T = self.type
        if op == 'load':
            atomic = False
            while c.peek() in ('volatile', 'atomic'): c.next()
            ty = T(c); c.expect(','); p = self.tv(c)
            I = Instr(op, dest, ty, (p, self._align(c, ty)), l)
        elif op == 'store':
            while c.peek() in ('volatile', 'atomic'): c.next()
            v = self.tv(c); c.expect(','); p = self.tv(c)
            I = Instr(op, None, v.ty, (v, p, self._align(c, v.ty)), l)
        elif op == 'alloca':
            while c.peek() in ('inalloca', 'swifterror'): c.next()
            ty = T(c); cnt = None; al = None
            while c.accept(','):
                if c.accept('align'): al = int(c.next())
                elif c.peek() == 'addrspace': break
                elif c.k[c.i] == 'meta': break
                else: cnt = self.tv(c)
            I = Instr(op, dest, ty, (cnt, al or ty.align()), l)
        elif op == 'getelementptr':
            while c.peek() in ('inbounds', 'nuw', 'nusw'): c.next()
            st = T(c); ops = []
            while c.accept(','):
                if c.k[c.i] == 'meta': break
                ops.append(self.tv(c))
            I = Instr(op, dest, PTR, (st, ops[0], ops[1:]), l)
        elif op in BIN:
            while c.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or c.peek() in SKIPATTR: c.next()
            ty = T(c); a = V(c, ty); c.expect(','); b = V(c, ty)
            I = Instr('bin', dest, ty, (op, a, b), l)
        elif op == 'fneg':
            while c.peek() in SKIPATTR: c.next()
            ty = T(c); a = V(c, ty)
            I = Instr(op, dest, ty, (a,), l)
        elif op in ('icmp', 'fcmp'):
            while c.peek() in SKIPATTR: c.next()
            pred = c.next(); ty = T(c); a = V(c, ty); c.expect(','); b = V(c, ty)
            I = Instr(op, dest, ty, (pred, a, b), l)
        elif op == 'select':
            while c.peek() in SKIPATTR: c.next()
            a = self.tv(c); c.expect(','); b = self.tv(c); c.expect(','); d = self.tv(c)
            I = Instr(op, dest, b.ty, (a, b, d), l)
        elif op == 'phi':
            while c.peek() in SKIPATTR: c.next()
            ty = T(c); inc = []
            while True:
                c.expect('['); v = V(c, ty); c.expect(','); lab = c.next(); c.expect(']')
                inc.append((v, lab))
                if not c.accept(','): break
                if c.k[c.i] == 'meta': break
            blk.phis.append((dest, ty, dict((lab, v) for v, lab in inc)))
            return
        elif op == 'br':
            if c.accept('label'):
                d = c.next()
                I = Instr('br', None, None, (None, d, None), l); blk.succ = [d]
            else:
                cv = self.tv(c); c.expect(','); c.expect('label'); a = c.next(); c.expect(','); c.expect('label'); b = c.next()
                I = Instr('br', None, None, (cv, a, b), l); blk.succ = [a, b] if a != b else [a]
        elif op == 'switch':
            v = self.tv(c); c.expect(','); c.expect('label'); d = c.next(); c.expect('[')
            cases = []
            while not c.accept(']'):
                cv = self.tv(c); c.expect(','); c.expect('label'); cases.append((cv, c.next()))
            I = Instr(op, None, None, (v, d, cases), l)
            s = []
            for x in [d] + [y for _, y in cases]:
                if x not in s: s.append(x)
            blk.succ = s
        elif op == 'ret':
            if c.peek() == 'void': I = Instr(op, None, VOID, (None,), l)
            else:
                v = self.tv(c)
                I = Instr(op, None, v.ty, (v,), l)
        elif op == 'unreachable': I = Instr(op, None, None, (), l)
        elif op == 'resume': I = Instr(op, None, None, (), l)
        elif op in ('call', 'invoke'):
            I = self._call(c, dest, op, l)
            if op == 'invoke':
                blk.succ = [I.a[3], I.a[4]]
        elif op == 'extractelement':
            v = self.tv(c); c.expect(','); i = self.tv(c)
            I = Instr(op, dest, v.ty.elem, (v, i), l)
        elif op == 'insertelement':
            v = self.tv(c); c.expect(','); e = self.tv(c); c.expect(','); i = self.tv(c)
            I = Instr(op, dest, v.ty, (v, e, i), l)
        elif op == 'shufflevector':
            a = self.tv(c); c.expect(','); b = self.tv(c); c.expect(','); m = self.tv(c)
            if m.kind == 'zero': mask = [0] * m.ty.n
            elif m.kind == 'undef': mask = [-1] * m.ty.n
            else: mask = [x.v if x.kind == 'int' else -1 for x in m.v]
            I = Instr(op, dest, Ty('v', len(mask), a.ty.elem), (a, b, mask), l)
        elif op == 'extractvalue':
            v = self.tv(c); idx = []
            while c.accept(','):
                if c.k[c.i] == 'meta': break
                idx.append(int(c.next()))
            I = Instr(op, dest, None, (v, idx), l)
        elif op == 'insertvalue':
            v = self.tv(c); c.expect(','); e = self.tv(c); idx = []
            while c.accept(','):
                if c.k[c.i] == 'meta': break
                idx.append(int(c.next()))
            I = Instr(op, dest, v.ty, (v, e, idx), l)
        elif op in CASTS:
            while c.peek() in ('nneg', 'nuw', 'nsw') or c.peek() in SKIPATTR: c.next()
            v = self.tv(c); c.expect('to'); ty = T(c)
            I = Instr('cast', dest, ty, (op, v), l)
        elif op == 'freeze':
            v = self.tv(c)
            I = Instr(op, dest, v.ty, (v,), l)
        elif op == 'landingpad': I = Instr(op, dest, None, (), l)
        elif op == 'fence': return
        elif op == 'atomicrmw':
            while c.peek() in ('volatile',): c.next()
            sub = c.next(); p = self.tv(c); c.expect(','); v = self.tv(c)
            I = Instr(op, dest, v.ty, (sub, p, v), l)
        elif op == 'cmpxchg':
            while c.peek() in ('volatile', 'weak'): c.next()
            p = self.tv(c); c.expect(','); a = self.tv(c); c.expect(','); b = self.tv(c)
            I = Instr(op, dest, None, (p, a, b), l)
        else:
            I = Instr('unknown', dest, None, (), l)
        blk.instrs.append(I)
    def _align(self, c, ty):
        while c.peek() is not None:
            if c.next() == 'align': return int(c.next())
        return ty.align()
    def _call(self, c, dest, op, l):
        while c.peek() in SKIPATTR or c.peek() in PATTR: 
            if c.peek() in PATTR: self.pattrs(c)
            else: c.next()
        rt = self.type(c)
        if c.peek() == '(':      # function type for varargs
            d = 0
            while True:
                t = c.next()
                if t == '(': d += 1
                elif t == ')':
                    d -= 1
                    if d == 0: break
        if c.peek() == 'asm':
            c.next()
            while c.k[c.i] != 'str': c.next()
            a = c.next(); c.expect(','); b = c.next()
            callee = ('asm', a[1:-1], b[1:-1])
        else:
            callee = self.value(c, PTR)
        c.expect('(')
        args = []; attrs = []
        if not c.accept(')'):
            while True:
                ty = self.type(c)
                if ty is META:
                    # metadata operand: skip to , or )
                    d = 0
                    while not (d == 0 and c.peek() in (',', ')')):
                        t = c.next()
                        if t in ('(', '{'): d += 1
                        elif t in (')', '}'): d -= 1
                else:
                    at = self.pattrs(c)
                    args.append(self.value(c, ty)); attrs.append(at)
                if c.accept(')'): break
                c.expect(',')
        normal = unwind = None
        if op == 'invoke':
            while c.next() != 'to': pass
            c.expect('label'); normal = c.next(); c.expect('unwind'); c.expect('label'); unwind = c.next()
        return Instr(op, dest, rt, (callee, args, attrs, normal, unwind), l)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

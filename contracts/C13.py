"""C13: aligned allocation returns enough suitably aligned memory or fails."""
from vclib import *

# The underlying allocator: records what it is asked for and answers as the inputs say.
PRE = r'''#include <Vc/Vc>
#include <Vc/Allocator>
#include <cstdlib>
#include <new>
static void *g_raw; static int g_err; static unsigned long g_align, g_size; static void *g_freed; static int g_calls, g_frees;
extern "C" int posix_memalign(void **p, size_t a, size_t n) noexcept { ++g_calls; g_align = a; g_size = n; if (g_err) return g_err; *p = g_raw; return 0; }
extern "C" void free(void *p) noexcept { ++g_frees; g_freed = p; }
void *operator new(size_t n) { ++g_calls; g_size = n; if (g_err) throw std::bad_alloc(); return g_raw; }
void operator delete(void *p) noexcept { ++g_frees; g_freed = p; }
void operator delete(void *p, size_t) noexcept { ++g_frees; g_freed = p; }
struct S12 { float a, b, c; }; struct S24 { double a, b, c; }; struct S1000 { char a[1000]; };
struct alignas(64) A64 { char a[64]; }; struct alignas(128) A128 { char a[128]; };
'''
RESET = 'g_raw = (void *)raw; g_err = err; g_align = 0; g_size = 0; g_freed = 0; g_calls = 0; g_frees = 0; '
INFO = ' info[0] = g_align; info[1] = g_size; info[2] = g_calls; info[3] = (unsigned long)g_freed; info[4] = g_frees;'
def c64(k): return const(k, 64)
def W(t): return T.zext(t, 128)
def need(e, size): return T.mul(W(e['n']), const(size, 128))
N = V('n', 'unsigned long', 64, 'u'); RAW = V('raw', 'unsigned long', 64, 'u'); ERR = V('err', 'int', 32, 's')
def INFOP(): return P('info', 'unsigned long *', 'u', 64, 5, 'out', align=8)
R = Ret('unsigned long', 64, 'u')
def hints(size):
    def f(e):
        def n(rng):
            k = rng.randrange(6)
            if k == 0: return rng.randrange(100)
            if k == 1: return (2**64 - rng.randrange(1, 70)) & (2**64 - 1)
            return (2**64 * rng.randrange(1, size + 1) // size + rng.randrange(-3, 70)) & (2**64 - 1)
        h = {e['n']: n, e['err']: lambda rng: rng.choice([0, 0, 12])}
        if 'raw' in e.ini: h[e['raw']] = lambda rng: rng.randrange(1, 1000) * 4096
        return h
    return f

def granted(e, size, align, pad=None):
    """what the request to the allocator has to satisfy when memory is returned"""
    info = e.out['info']; a, s = info[0], info[1]; some = bnot(eq(e.ret, c64(0)))
    imp = lambda x: disj(bnot(some), x)
    yield 'returns what the allocator returned', imp(conj(eq(e.ret, e['raw']), eq(e['err'], const(0, 32)), eq(info[2], c64(1))))
    yield 'requests a valid alignment', imp(conj(bnot(eq(a, c64(0))), eq(T.band(a, T.sub(a, c64(1))), c64(0)), eq(T.band(a, c64(7)), c64(0))))
    yield 'requests at least the alignment', imp(T.ule(c64(align), a))
    yield 'requests enough bytes', imp(T.ule(need(e, size), W(s)))
    if pad: yield 'requests a multiple of the padding', imp(eq(T.band(s, c64(pad - 1)), c64(0)))
    small = T.ult(need(e, size), const(2**63 - 4096, 128))
    yield 'asks the allocator when the size is representable', disj(bnot(small), eq(info[2], c64(1)))
    yield 'returns the memory when there is some', disj(bnot(small), bnot(eq(e['err'], const(0, 32))), eq(e.ret, e['raw']))
    yield 'returns null on failure', disj(eq(e['err'], const(0, 32)), eq(e.ret, c64(0)))

def valign(cfg):
    a = build.CONFIGS[cfg].abis
    return 32 if 'Avx' in a else 16
def mallocs(cfg):
    va = valign(cfg)
    tys = {'char': ('char', 1), 'ushort': ('unsigned short', 2), 'float': ('float', 4), 'double': ('double', 8), 's12': ('S12', 12), 's24': ('S24', 24), 's1000': ('S1000', 1000)}
    pre = lambda e: [bnot(eq(e['raw'], c64(0)))]
    for tn, (cxx, size) in tys.items():
        for an, al in (('Vector', va), ('Cacheline', 64), ('Page', 4096)):
            yield Contract('malloc_%s_%s' % (tn, an), [N, RAW, ERR, INFOP()], RESET + '%s *p = Vc::malloc<%s, Vc::AlignOn%s>(n);%s return (unsigned long)p;' % (cxx, cxx, an, INFO), ret=R, pre=pre,
                post=lambda e, size=size, al=al: granted(e, size, al, al), opts={'hints': hints(size)})
    for tn, (cxx, size) in tys.items():
        yield Contract('free_' + tn, [RAW, INFOP()], 'int err = 0; ' + RESET + 'Vc::free((%s *)raw);%s' % (cxx, INFO), post=lambda e: [('frees the pointer, once', conj(eq(e.out['info'][3], e['raw']), eq(e.out['info'][4], c64(1))))])
    # class-specific new and delete
    for v in vecs(cfg):
        if v.abi == 'Scalar': continue
        for tag, cxx, al in ((v.tag, v.cxx, v.align), (v.tag + '_mask', v.mask, v.align)):
            for br in ('', '[]'):
                yield Contract('%s_operator_new%s' % (tag, br and '_array'), [N, RAW, ERR, INFOP()], RESET + 'using V = %s; void *p = V::operator new%s(n);%s return (unsigned long)p;' % (cxx, br, INFO), ret=R, pre=pre,
                    post=lambda e, al=al: granted(e, 1, al), opts={'hints': hints(1)})
                yield Contract('%s_operator_delete%s' % (tag, br and '_array'), [N, RAW, INFOP()], 'int err = 0; ' + RESET + 'using V = %s; V::operator delete%s((void *)raw, n);%s' % (cxx, br, INFO),
                    post=lambda e: [('frees the pointer, once', conj(eq(e.out['info'][3], e['raw']), eq(e.out['info'][4], c64(1))))])
    for name, cxx, al in (('AlignedBase_64', 'Vc::AlignedBase<64>', 64), ('AlignedBase_16', 'Vc::AlignedBase<16>', 16), ('VectorAlignedBase', 'Vc::VectorAlignedBase', va), ('MemoryAlignedBase', 'Vc::MemoryAlignedBase', va)):
        yield Contract(name + '_operator_new', [N, RAW, ERR, INFOP()], RESET + 'struct D : %s { }; void *p = D::operator new(n);%s return (unsigned long)p;' % (cxx, INFO), ret=R, pre=pre,
            post=lambda e, al=al: granted(e, 1, al), opts={'hints': hints(1)})

def allocs(cfg):
    va = valign(cfg)
    tys = {'char': ('char', 1, 1), 'float': ('float', 4, 4), 'double': ('double', 8, 8), 's12': ('S12', 12, 4), 's24': ('S24', 24, 8), 'a64': ('A64', 64, 64), 'a128': ('A128', 128, 128)}
    for v in vecs(cfg, tys=['float', 'double', 'short']):
        tys[v.tag] = (v.cxx, v.bytes, v.align)
        if v.ty.name != 'short': tys[v.tag + '_mask'] = (v.mask, v.bytes if v.abi != 'Scalar' else 1, v.align if v.abi != 'Scalar' else 1)
    tys['array12'] = ('Vc::SimdArray<float, 12>', 48 if va == 16 else 64, va)
    # ::operator new gives addresses that are multiples of 16
    K = V('k', 'unsigned', 32, 'u'); BUF = P('buf', 'char *', 'u', 8, 640, 'inout', align=128)
    for tn, (cxx, size, al) in tys.items():
        std = tn not in ('char', 'float', 'double', 's12', 's24', 'a64', 'a128')
        A = ('std::allocator<%s>' if std else 'Vc::Allocator<%s>') % cxx
        align = max(al, va)
        def pre(e): return [T.ult(e['k'], const(8, 32))]
        def hh(e, size=size):
            h = hints(size)(e); h[e['k']] = lambda rng: rng.randrange(8); return h
        big = lambda e, size=size: disj(bnot(eq(e['err'], const(0, 32))), T.ule(const(2**63 - 4096, 128), need(e, size)))
        def post(e, size=size, align=align):
            info = e.out['info']; off = e.ret   # offset of the result from the start of the allocation
            yield 'memory for n objects behind the result', T.ule(T.add(W(off), need(e, size)), W(info[1]))
            yield 'aligned', eq(T.band(T.add(off, T.zext(T.mul(e['k'], const(16, 32)), 64)), c64(align - 1)), c64(0))
            yield 'asks once', eq(info[2], c64(1))
        pro = 'char *raw = buf + 16 * k; ' + RESET
        yield Contract('allocate_' + tn, [N, K, ERR, BUF, INFOP()], pro + '%s a; char *p = (char *)a.allocate(n);%s return (unsigned long)(p - raw);' % (A, INFO), ret=R, pre=pre, post=post, throws=big, opts={'hints': hh, 'may_throw': True})
        # every use of the memory leaves deallocate able to return the original pointer
        use = P('use', 'const unsigned char *', 'u', 8, size, 'in', align=1)
        yield Contract('deallocate_' + tn, [N, K, use, BUF, INFOP()], 'int err = 0; ' + pro + '%s a; auto *p = a.allocate(n); if (n > 0) __builtin_memcpy((void *)p, use, %d); a.deallocate(p, n);%s return (unsigned long)((char *)g_freed - raw);' % (A, size, INFO), ret=R,
            pre=lambda e, pre=pre: pre(e) + [T.ult(e['n'], c64(1 << 32))], post=lambda e: [('frees the allocated pointer', eq(e.ret, c64(0))), ('frees once', eq(e.out['info'][4], c64(1)))], opts={'hints': lambda e: {e['k']: lambda rng: rng.randrange(8), e['n']: lambda rng: rng.randrange(5)}})

def contracts(cfg, tier): return uniq(list(mallocs(cfg)) + list(allocs(cfg)))
def groups(tier): return [Group(c, contracts(c, tier), prelude=PRE) for c in cfgs(tier)]

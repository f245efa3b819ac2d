"""C14: CPU feature detection decodes what cpuid and xgetbv report."""
from vclib import *

K4 = 6                       # cache descriptors of leaf 4 that are considered (then comes a terminator)
LEAVES = [(0, None), (1, None), (2, None), (7, 0), (0x80000000, None), (0x80000001, None), (0x80000005, None), (0x80000006, None)] + [(4, i) for i in range(K4 + 1)]
PRE = r'''
#define Vc_COMPILE_LIB 1
#include <cstddef>
#include <cstdint>
#include <cstring>
#ifdef VC_NATIVE
static const unsigned *g_regs; static unsigned g_xcr0; extern "C" { unsigned vc_out[4]; }
extern "C" __attribute__((target("general-regs-only"), used)) void vc_fake_cpuid_c(unsigned leaf, unsigned sub) {
    static const unsigned leaves[] = {0, 1, 2, 7, 0x80000000u, 0x80000001u, 0x80000005u, 0x80000006u}; int idx = -1;
    for (int i = 0; i < 8; ++i) if (leaves[i] == leaf && (leaf != 7 || sub == 0)) idx = i;
    if (leaf == 4 && sub < %(k)d) idx = 8 + sub;
    for (int i = 0; i < 4; ++i) vc_out[i] = idx < 0 ? 0xa5a5a5a5u : g_regs[4 * idx + i];
}
extern "C" __attribute__((target("general-regs-only"), used)) void vc_fake_xgetbv_c(unsigned sub) { vc_out[0] = sub == 0 ? g_xcr0 : 0xa5a5a5a5u; vc_out[3] = 0; }
#define SAVE "push %%rbp\n mov %%rsp,%%rbp\n push %%rsi\n push %%rdi\n push %%r8\n push %%r9\n push %%r10\n push %%r11\n and $-16,%%rsp\n"
#define REST "lea -48(%%rbp),%%rsp\n pop %%r11\n pop %%r10\n pop %%r9\n pop %%r8\n pop %%rdi\n pop %%rsi\n pop %%rbp\n ret\n"
__asm__(".text\n vc_fake_cpuid:\n" SAVE "mov %%eax,%%edi\n mov %%ecx,%%esi\n call vc_fake_cpuid_c\n mov vc_out@GOTPCREL(%%rip),%%r11\n mov (%%r11),%%eax\n mov 4(%%r11),%%ebx\n mov 8(%%r11),%%ecx\n mov 12(%%r11),%%edx\n" REST
        "vc_fake_xgetbv:\n push %%rcx\n" SAVE "mov %%ecx,%%edi\n call vc_fake_xgetbv_c\n mov vc_out@GOTPCREL(%%rip),%%r11\n mov (%%r11),%%eax\n mov 12(%%r11),%%edx\n lea -48(%%rbp),%%rsp\n pop %%r11\n pop %%r10\n pop %%r9\n pop %%r8\n pop %%rdi\n pop %%rsi\n pop %%rbp\n pop %%rcx\n ret\n");
#define INIT g_regs = regs; g_xcr0 = xcr0;
#define __asm__(...) __asm("sub $128,%%%%rsp\n call vc_fake_cpuid\n add $128,%%%%rsp\n#" __VA_ARGS__)
#define asm(...) __asm("sub $128,%%%%rsp\n call vc_fake_xgetbv\n add $128,%%%%rsp\n#" __VA_ARGS__)
#else
#define INIT
#endif
#include "src/cpuid.cpp"
#include "src/support_x86.cpp"
#undef asm
#undef __asm__
using Vc::CpuId;
''' % {'k': K4 + 1}

def reg(i, j): return T.var('regs[%d]' % (4 * i + j), 32)
def leaf(l, s=None): return [reg(LEAVES.index((l, s)), j) for j in range(4)]
def asm_cpuid(ex, st, opv, tys):
    ins = [x for x in opv if x is not None]
    l = ins[0]; s = ins[1] if len(ins) > 1 else None
    if l.op != 'const' or s is not None and s.op != 'const': raise X.Unsupported('cpuid with an unknown leaf')
    l = l.k
    s = s.k if s is not None and l in (4, 7) else None
    if (l, s) in LEAVES: return leaf(l, s)
    # sub-leaf left to whatever %ecx holds, or a leaf nothing is known about
    return [T.fresh('cpuid', 32) for _ in range(4)]
def asm_xgetbv(ex, st, opv, tys):
    s = [x for x in opv if x is not None][0]
    return T.var('xcr0', 32) if s.op == 'const' and s.k == 0 else T.fresh('xgetbv', 32)
ASM = {'cpuid': asm_cpuid, 'xgetbv': asm_xgetbv}
def with_leaf2(regs):
    """leaf 2 answers the given terms (which the precondition makes equal to the parameters)"""
    def h(ex, st, opv, tys):
        ins = [x for x in opv if x is not None]
        if ins[0].op == 'const' and ins[0].k == 2: return list(regs)
        return asm_cpuid(ex, st, opv, tys)
    return dict(ASM, cpuid=h)
def invalid(q):
    x = leaf(2)[q]
    return T.concat(const(1, 1), T.extract(x, 30, 8), const(1, 8)) if q == 0 else T.concat(const(1, 1), T.extract(x, 30, 0))

EAX, EBX, ECX, EDX = range(4)
def bit(x, n): return T.extract(x, n, n)
def fld(x, hi, lo): return T.zext(T.extract(x, hi, lo), 32)
def c32(k): return const(k, 32)
AMD = 0x444D4163; INTEL = 0x6C65746E
FEATURES = {
 'Sse3': (1, ECX, 0), 'Pclmulqdq': (1, ECX, 1), 'Monitor': (1, ECX, 3), 'Vmx': (1, ECX, 5), 'Smx': (1, ECX, 6), 'Eist': (1, ECX, 7), 'Tm2': (1, ECX, 8), 'Ssse3': (1, ECX, 9),
 'Fma': (1, ECX, 12), 'CmpXchg16b': (1, ECX, 13), 'Pdcm': (1, ECX, 15), 'Dca': (1, ECX, 18), 'Sse41': (1, ECX, 19), 'Sse42': (1, ECX, 20), 'Movbe': (1, ECX, 22), 'Popcnt': (1, ECX, 23),
 'Aes': (1, ECX, 25), 'Osxsave': (1, ECX, 27), 'Avx': (1, ECX, 28), 'F16c': (1, ECX, 29), 'Rdrand': (1, ECX, 30),
 'Fpu': (1, EDX, 0), 'Vme': (1, EDX, 1), 'De': (1, EDX, 2), 'Pse': (1, EDX, 3), 'Tsc': (1, EDX, 4), 'Msr': (1, EDX, 5), 'Pae': (1, EDX, 6), 'Cx8': (1, EDX, 8), 'Mtrr': (1, EDX, 12), 'Cmov': (1, EDX, 15),
 'Clfsh': (1, EDX, 19), 'Acpi': (1, EDX, 22), 'Mmx': (1, EDX, 23), 'Sse': (1, EDX, 25), 'Sse2': (1, EDX, 26), 'Htt': (1, EDX, 28),
 'Bmi1': (7, EBX, 3), 'Hle': (7, EBX, 4), 'Avx2': (7, EBX, 5), 'Bmi2': (7, EBX, 8), 'Rtm': (7, EBX, 11), 'Avx512f': (7, EBX, 16), 'Avx512dq': (7, EBX, 17), 'Avx512ifma': (7, EBX, 21), 'Avx512pf': (7, EBX, 26),
 'Avx512er': (7, EBX, 27), 'Avx512cd': (7, EBX, 28), 'Avx512bw': (7, EBX, 30), 'Avx512vl': (7, EBX, 31), 'Avx512vbmi': (7, ECX, 1),
 'Sse4a': (8, ECX, 6), 'MisAlignSse': (8, ECX, 7), 'AmdPrefetch': (8, ECX, 8), 'Xop': (8, ECX, 11), 'Fma4': (8, ECX, 16), 'Rdtscp': (8, EDX, 27), '3DNow': (8, EDX, 31), '3DNowExt': (8, EDX, 30)}
def has(name):
    l, r, n = FEATURES[name]
    if l == 1: return bit(leaf(1)[r], n)
    if l == 7: return conj(T.ule(c32(7), leaf(0)[EAX]), bit(leaf(7, 0)[r], n))
    return conj(T.ule(c32(0x80000001), leaf(0x80000000)[EAX]), bit(leaf(0x80000001)[r], n))
def is_amd(): return eq(leaf(0)[ECX], c32(AMD))
def is_intel(): return eq(leaf(0)[ECX], c32(INTEL))
def family():
    a = leaf(1)[EAX]; f = fld(a, 11, 8)
    return ite(eq(f, c32(15)), T.add(f, fld(a, 27, 20)), f)
def model():
    a = leaf(1)[EAX]; f = fld(a, 11, 8); m = fld(a, 7, 4); x = T.bor(T.shl(fld(a, 19, 16), c32(4)), m)
    return ite(disj(eq(f, c32(15)), conj(eq(f, c32(6)), bnot(is_amd()))), x, m)
def os_avx(): return eq(T.band(T.var('xcr0', 32), c32(6)), c32(6))

# documented encodings of leaf 2: field -> {descriptor: (size, ways, line size)}
KB = 1024; MB = 1024 * KB
L1I = {0x06: (8*KB, None, 32), 0x08: (16*KB, None, 32), 0x09: (32*KB, None, 64), 0x30: (32*KB, None, 64)}
L1D = {0x0A: (8*KB, 2, 32), 0x0C: (16*KB, 4, 32), 0x0D: (16*KB, 4, 64), 0x0E: (24*KB, 6, 64), 0x2C: (32*KB, 8, 64), 0x60: (16*KB, 8, 64), 0x66: (8*KB, 4, 64), 0x67: (16*KB, 4, 64), 0x68: (32*KB, 4, 64)}
L2 = {0x21: (256*KB, 8, 64), 0x41: (128*KB, 4, 32), 0x42: (256*KB, 4, 32), 0x43: (512*KB, 4, 32), 0x44: (MB, 4, 32), 0x45: (2*MB, 4, 32), 0x48: (3*MB, 12, 64), 0x4E: (6*MB, 24, 64), 0x78: (MB, 4, 64), 0x79: (128*KB, 8, 64),
      0x7A: (256*KB, 8, 64), 0x7B: (512*KB, 8, 64), 0x7C: (MB, 8, 64), 0x7D: (2*MB, 8, 64), 0x7F: (512*KB, 2, 64), 0x80: (512*KB, 8, 64), 0x82: (256*KB, 8, 32), 0x83: (512*KB, 8, 32), 0x84: (MB, 8, 32), 0x85: (2*MB, 8, 32),
      0x86: (512*KB, 4, 64), 0x87: (MB, 8, 64)}
L3 = {0x22: (512*KB, 4, 64), 0x23: (MB, 8, 64), 0x25: (2*MB, 8, 64), 0x29: (4*MB, 8, 64), 0x46: (4*MB, 4, 64), 0x47: (8*MB, 8, 64), 0x4A: (6*MB, 12, 64), 0x4B: (8*MB, 16, 64), 0x4C: (12*MB, 12, 64), 0x4D: (16*MB, 16, 64),
      0xD0: (512*KB, 4, 64), 0xD1: (MB, 4, 64), 0xD2: (2*MB, 4, 64), 0xD6: (MB, 8, 64), 0xD7: (2*MB, 8, 64), 0xD8: (4*MB, 8, 64), 0xDC: (3*MB//2, 12, 64), 0xDD: (3*MB, 12, 64), 0xDE: (6*MB, 12, 64),
      0xE2: (2*MB, 16, 64), 0xE3: (4*MB, 16, 64), 0xE4: (8*MB, 16, 64), 0xEA: (12*MB, 24, 64), 0xEB: (18*MB, 24, 64), 0xEC: (24*MB, 24, 64)}
# descriptors that newer manuals define and the library does not know are not constrained
UNKNOWN = [0x1D, 0x24, 0x4F]
CACHE = ['L1Instruction', 'L1InstructionLineSize', 'L1Data', 'L1DataLineSize', 'L1Associativity', 'L2Data', 'L2DataLineSize', 'L2Associativity', 'L3Data', 'L3DataLineSize', 'L3Associativity', 'prefetch']
FIELDS = [('L1Instruction', None, 'L1InstructionLineSize', L1I), ('L1Data', 'L1Associativity', 'L1DataLineSize', L1D), ('L2Data', 'L2Associativity', 'L2DataLineSize', L2), ('L3Data', 'L3Associativity', 'L3DataLineSize', L3)]

REGS = P('regs', 'const unsigned *', 'u', 32, 4 * len(LEAVES), 'in', align=4)
XCR = V('xcr0', 'unsigned', 32, 'u')
def term4(e): return [eq(T.extract(leaf(4, K4)[EAX], 4, 0), const(0, 5))]
def quiet(e): return [eq(leaf(2)[q], invalid(q)) for q in range(4)]
def hints(e):
    h = {leaf(0)[ECX]: lambda rng: rng.choice([AMD, INTEL, INTEL, 0x73696e65]), leaf(0)[EAX]: lambda rng: rng.choice([2, 6, 7, 13, 22]), leaf(0x80000000)[EAX]: lambda rng: rng.choice([0, 0x80000000, 0x80000008, 0x8000001f]),
         T.var('xcr0', 32): lambda rng: rng.choice([0, 1, 2, 3, 4, 6, 7, 7])}
    for r in range(4): h[leaf(2)[r]] = lambda rng, r=r: 0x80000000 | (rng.getrandbits(23) << 8 | 1 if r == EAX else rng.getrandbits(31))
    h[leaf(4, K4)[EAX]] = lambda rng: rng.getrandbits(27) << 5
    return h
OPT = {'static_init': True, 'asm': with_leaf2([invalid(q) for q in range(4)]), 'hints': hints}
def C(name, ps, body, post, ret=None, pre=quiet, **o):
    return Contract(name, [REGS, XCR] + ps, 'INIT ' + body, ret=ret, pre=pre, post=post, opts=dict(OPT, **o))
RB = Ret('bool', 1, 'b')
def boolret(spec): return lambda e: [('value', eq(e.ret, spec()))]
def t1(b): return b

def contracts(cfg, tier):
    for n in FEATURES:
        yield C('has_' + n, [], 'CpuId::init(); return CpuId::has%s();' % n, boolret(lambda n=n: has(n)), ret=RB)
    yield C('is_amd', [], 'CpuId::init(); return CpuId::isAmd();', boolret(is_amd), ret=RB)
    yield C('is_intel', [], 'CpuId::init(); return CpuId::isIntel();', boolret(is_intel), ret=RB)
    a, b = leaf(1)[EAX], leaf(1)[EBX]
    R = Ret('unsigned', 32, 'u')
    # an extended family that does not fit into 8 bits has never been assigned; the family of the Xeon Phi is 11 without extension
    known = lambda: [T.ule(family(), c32(255)), disj(bnot(eq(fld(a, 11, 8), c32(11))), eq(T.extract(a, 27, 16), const(0, 12)))]
    fpre = lambda e: quiet(e) + known()
    for n, spec in (('processorFamily', family), ('processorModel', model), ('processorType', lambda: fld(a, 13, 12)), ('cacheLineSize', lambda: T.mul(fld(b, 15, 8), c32(8))), ('logicalProcessors', lambda: fld(b, 23, 16))):
        yield C(n, [], 'CpuId::init(); return unsigned(CpuId::%s());' % n, boolret(spec), ret=R, pre=fpre)
    yield C('init_twice', [], 'CpuId::init(); CpuId::init(); return CpuId::hasSse2();', boolret(lambda: has('Sse2')), ret=RB)
    # implementations
    mic = lambda: conj(eq(family(), c32(11)), eq(model(), c32(1)), is_intel())
    impl = {'ScalarImpl': lambda: TRUE, 'SSE2Impl': lambda: has('Sse2'), 'SSE3Impl': lambda: has('Sse3'), 'SSSE3Impl': lambda: has('Ssse3'), 'SSE41Impl': lambda: has('Sse41'), 'SSE42Impl': lambda: has('Sse42'),
            'AVXImpl': lambda: conj(has('Avx'), has('Osxsave'), os_avx()), 'AVX2Impl': lambda: conj(has('Avx2'), has('Osxsave'), os_avx()), 'MICImpl': mic, 'ImplementationMask': lambda: FALSE}
    # every known CPU that has an extension also has those before it
    chain = ['Sse2', 'Sse3', 'Ssse3', 'Sse41', 'Sse42', 'Avx', 'Avx2']
    mono = lambda e: fpre(e) + [disj(bnot(has(y)), has(x)) for x, y in zip(chain, chain[1:])]
    for n, spec in impl.items():
        yield C('supported_' + n, [], 'return Vc::isImplementationSupported(Vc::%s);' % n, boolret(spec), ret=RB, pre=fpre)
    yield C('supported_other', [V('i', 'unsigned', 32, 'u')], 'return i > Vc::MICImpl ? Vc::isImplementationSupported(Vc::Implementation(i)) : false;', boolret(lambda: FALSE), ret=RB, pre=lambda e: fpre(e) + [T.ule(e['i'], c32(0xfff))])
    for n, spec in impl.items():
        if n == 'ImplementationMask': continue
        def post(e, n=n, spec=spec):
            order = list(impl)[:9]
            better = [impl[m]() for m in order[order.index(n) + 1:]]
            yield 'returned iff it is the most capable supported one', eq(e.ret, conj(spec(), *[bnot(x) for x in better]))
        yield C('best_' + n, [], 'return Vc::bestImplementationSupported() == Vc::%s;' % n, post, ret=RB, pre=mono)
    extra = {'Float16cInstructions': lambda: has('F16c'), 'Fma4Instructions': lambda: has('Fma4'), 'XopInstructions': lambda: has('Xop'), 'PopcntInstructions': lambda: has('Popcnt'), 'Sse4aInstructions': lambda: has('Sse4a'),
             'FmaInstructions': lambda: has('Fma'), 'VexInstructions': lambda: conj(has('Osxsave'), has('Avx'), os_avx()), 'Bmi2Instructions': lambda: has('Bmi2')}
    for n, spec in extra.items():
        yield C('extra_' + n, [], 'CpuId::init(); return (Vc::extraInstructionsSupported() & Vc::%s) != 0;' % n, boolret(spec), ret=RB)
    yield C('extra_nothing_else', [], 'CpuId::init(); return (Vc::extraInstructionsSupported() & ~(%s)) == 0;' % ' | '.join('Vc::' + n for n in extra), boolret(lambda: TRUE), ret=RB)
    # a build target runs where its implementation and each of its extensions is there
    for tn, f, sup in (('avx2', 'Vc::AVX2Impl | Vc::FmaInstructions | Vc::Bmi2Instructions | Vc::PopcntInstructions | Vc::Float16cInstructions | Vc::VexInstructions', lambda: conj(impl['AVX2Impl'](), *[extra[x]() for x in ('FmaInstructions', 'Bmi2Instructions', 'PopcntInstructions', 'Float16cInstructions', 'VexInstructions')])),
                       ('sse42', 'Vc::SSE42Impl | Vc::PopcntInstructions', lambda: conj(impl['SSE42Impl'](), extra['PopcntInstructions']())), ('sse2', 'Vc::SSE2Impl', impl['SSE2Impl']),
                       ('fma4', 'Vc::AVXImpl | Vc::Fma4Instructions | Vc::XopInstructions | Vc::Sse4aInstructions', lambda: conj(impl['AVXImpl'](), *[extra[x]() for x in ('Fma4Instructions', 'XopInstructions', 'Sse4aInstructions')]))):
        yield C('target_' + tn, [], 'return Vc::isImplementationSupported<Vc::ImplementationT<%s>>();' % f, boolret(sup), ret=RB, pre=fpre)
    # caches of AMD processors
    l5, l6 = leaf(0x80000005), leaf(0x80000006)
    def assoc(x):
        enc = {0: 0, 1: 1, 2: 2, 4: 4, 6: 8, 8: 16, 10: 32, 11: 48, 12: 64, 13: 96, 14: 128, 15: 255}
        r = c32(0)
        for k, v in enc.items(): r = ite(eq(x, const(k, 4)), c32(v), r)
        return r, disj(*[eq(x, const(k, 4)) for k in enc])
    c5, d5, c6, d6 = l5[ECX], l5[EDX], l6[ECX], l6[EDX]
    a2, k2 = assoc(T.extract(c6, 15, 12)); a3, k3 = assoc(T.extract(d6, 15, 12))
    amd = {'L1DataLineSize': (fld(c5, 7, 0), TRUE), 'L1Data': (T.mul(fld(c5, 31, 24), c32(1024)), TRUE), 'L1Associativity': (fld(c5, 23, 16), TRUE), 'L1InstructionLineSize': (fld(d5, 7, 0), TRUE), 'L1Instruction': (T.mul(fld(d5, 31, 24), c32(1024)), TRUE),
           'L2DataLineSize': (fld(c6, 7, 0), TRUE), 'L2Data': (T.mul(fld(c6, 31, 16), c32(1024)), TRUE), 'L2Associativity': (a2, k2), 'L3DataLineSize': (fld(d6, 7, 0), TRUE), 'L3Data': (T.mul(fld(d6, 31, 18), c32(512 * 1024)), TRUE), 'L3Associativity': (a3, k3),
           'prefetch': (T.mul(fld(b, 15, 8), c32(8)), TRUE)}
    ha = {'hints': lambda e: {**hints(e), leaf(0)[ECX]: lambda rng: AMD}}
    for n, (v, kn) in amd.items():
        yield C('amd_' + n, [], 'CpuId::init(); return unsigned(CpuId::%s());' % n, lambda e, v=v, kn=kn: [('documented field', disj(bnot(kn), eq(e.ret, v)))], ret=R, pre=lambda e: quiet(e) + [is_amd()], **ha)
    # leaf 2: one descriptor, at every position
    dump = ' '.join('out[%d] = CpuId::%s();' % (i, n) for i, n in enumerate(CACHE))
    OUT = P('out', 'unsigned *', 'u', 32, len(CACHE), 'out', align=4)
    for p in range(1, 16):
        r, k = divmod(p, 4); x = leaf(2)[r]; byte = T.extract(x, 8 * k + 7, 8 * k)
        # the register under test holds this one descriptor; the other registers are marked as invalid
        regs = [invalid(q) for q in range(4)]
        low = const(1, 8) if r == EAX else None
        parts = [byte if j == k else (const(1, 8) if r == EAX and j == 0 else const(0, 8)) for j in range(4)]
        regs[r] = T.concat(*reversed(parts))
        def pre(e, regs=regs, byte=byte):
            return [eq(leaf(2)[q], regs[q]) for q in range(4)] + [bnot(is_amd())] + [bnot(eq(byte, const(u, 8))) for u in UNKNOWN + [0xff]] + known()
        def post(e, r=r, k=k, x=x, byte=byte):
            valid = bnot(bit(x, 31)); g = dict(zip(CACHE, e.out['out'])); is_ = lambda d: conj(valid, eq(byte, const(d, 8)))
            f49 = conj(eq(family(), c32(15)), eq(model(), c32(6)))
            for size, ways, line, tab in FIELDS:
                s = w = l = c32(0)
                ents = [(is_(d), v) for d, v in tab.items()]
                if size == 'L2Data': ents.append((conj(is_(0x49), bnot(f49)), (4*MB, 16, 64)))
                if size == 'L3Data': ents.append((conj(is_(0x49), f49), (4*MB, 16, 64)))
                for c, (vs, vw, vl) in ents: s = ite(c, c32(vs), s); w = ite(c, c32(vw or 0), w); l = ite(c, c32(vl), l)
                yield size, eq(g[size], s)
                yield line, eq(g[line], l)
                if ways: yield ways, eq(g[ways], w)
            yield 'prefetch', eq(g['prefetch'], ite(is_(0xF0), c32(64), ite(is_(0xF1), c32(128), c32(32))))
        allb = sorted({d for *_, t in FIELDS for d in t} | {0x49, 0xF0, 0xF1, 0x40, 0})
        def h2(e, r=r, k=k):
            h = hints(e); h[leaf(0)[ECX]] = lambda rng: INTEL
            for q in range(4): h[leaf(2)[q]] = lambda rng, q=q: 0x80000001 if q == EAX else 0x80000000 | rng.getrandbits(31)
            h[leaf(2)[r]] = lambda rng: rng.choice(allb) << 8 * k | (1 if r == EAX else 0)
            return h
        yield C('leaf2_%s_%d' % ('abcd'[r], k), [OUT], 'CpuId::init(); ' + dump, post, pre=pre, hints=h2, asm=with_leaf2(regs), selftest=False)
    # leaf 4
    for p in (1, 4, 9, 14):
        r, k = divmod(p, 4); x = leaf(2)[r]
        def pre(e, r=r, k=k):
            ff = c32(0xff << 8 * k | (1 if r == EAX else 0))
            g = [bnot(is_amd())] + term4(e)
            for q in range(4): g.append(eq(leaf(2)[q], ff if q == r else c32(1 if q == EAX else 0)))
            for i in range(K4):
                # sizes are less than 2^31
                w, pt, ln, st = geom(i); g.append(T.ult(T.mul(T.mul(T.zext(w, 64), T.zext(pt, 64)), T.mul(T.zext(ln, 64), T.add(T.zext(leaf(4, i)[ECX], 64), const(1, 64)))), const(1 << 31, 64))); g.append(T.ult(leaf(4, i)[ECX], c32(1 << 31)))
            return g
        def geom(i):
            ea, eb, ec, _ = leaf(4, i)
            return T.add(c32(1), fld(eb, 31, 22)), T.add(c32(1), fld(eb, 21, 12)), T.add(c32(1), fld(eb, 11, 0)), T.add(c32(1), ec)
        def post(e):
            g = dict(zip(CACHE, e.out['out'])); act = TRUE
            cur = {n: c32(0) for n in CACHE}
            for i in range(K4):
                ty = T.extract(leaf(4, i)[EAX], 4, 0); lv = T.extract(leaf(4, i)[EAX], 7, 5)
                act = conj(act, bnot(eq(ty, const(0, 5))))
                w, pt, ln, st = geom(i); size = T.mul(T.mul(T.mul(w, pt), ln), st)
                for L, (sz, wy, li) in {1: ('L1Data', 'L1Associativity', 'L1DataLineSize'), 2: ('L2Data', 'L2Associativity', 'L2DataLineSize'), 3: ('L3Data', 'L3Associativity', 'L3DataLineSize')}.items():
                    c = conj(act, disj(eq(ty, const(1, 5)), eq(ty, const(3, 5))), eq(lv, const(L, 3)))
                    cur[sz] = ite(c, size, cur[sz]); cur[wy] = ite(c, w, cur[wy]); cur[li] = ite(c, ln, cur[li])
                c = conj(act, eq(ty, const(2, 5)), eq(lv, const(1, 3)))
                cur['L1Instruction'] = ite(c, size, cur['L1Instruction']); cur['L1InstructionLineSize'] = ite(c, ln, cur['L1InstructionLineSize'])
            ls = T.mul(fld(b, 15, 8), c32(8)); cur['prefetch'] = ite(eq(ls, c32(0)), c32(64), ls)
            for n in CACHE: yield n, eq(g[n], cur[n])
        def h4(e, r=r, k=k):
            h = hints(e); h[leaf(0)[ECX]] = lambda rng: INTEL
            for q in range(4): h[leaf(2)[q]] = lambda rng, q=q: (0xff << 8 * k if q == r else 0) | (1 if q == EAX else 0)
            for i in range(K4):
                h[leaf(4, i)[EAX]] = lambda rng, i=i: rng.choice([1, 2, 3, 3, 1, 4, 0] if i > 2 else [1, 2, 3]) | rng.randrange(1, 5) << 5 | rng.getrandbits(18) << 8
                h[leaf(4, i)[EBX]] = lambda rng: 63 | rng.randrange(2) << 12 | rng.choice([3, 7, 11, 15]) << 22
                h[leaf(4, i)[ECX]] = lambda rng: rng.choice([63, 511, 1023, 8191])
            return h
        yield C('leaf4_%s_%d' % ('abcd'[r], k), [OUT], 'CpuId::init(); ' + dump, post, pre=pre, hints=h4, asm=with_leaf2([c32((0xff << 8 * k if q == r else 0) | (1 if q == EAX else 0)) for q in range(4)]), selftest=False)
def groups(tier): return [Group(c, uniq(list(contracts(c, tier))), prelude=PRE) for c in ('sse2', 'sse2clang')]

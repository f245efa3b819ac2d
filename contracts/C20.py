"""C20: the library accepts exactly the compatible headers."""
from vclib import *
import re

# the library source with version numbers that are not known at compile time
LIB = r'''
#define Vc_COMPILE_LIB 1
#include <Vc/version.h>
#undef Vc_VERSION_NUMBER
#undef Vc_LIBRARY_ABI_VERSION
extern unsigned vc_lib_number, vc_lib_abi;
#define Vc_VERSION_NUMBER vc_lib_number
#define Vc_LIBRARY_ABI_VERSION vc_lib_abi
unsigned vc_lib_number, vc_lib_abi;
#include "src/const.cpp"
namespace Vc_VERSIONED_NAMESPACE { namespace Common { void checkLibraryAbi(unsigned, unsigned, const char *); } }
'''
HEAD = r'''
#include <cstdlib>
#include <Vc/global.h>
#include <Vc/version.h>
static unsigned g_abi, g_number, g_calls, g_runs; static const char *g_string;
namespace Vc_VERSIONED_NAMESPACE { namespace Common { void checkLibraryAbi(unsigned a, unsigned n, const char *s) { g_abi = a; g_number = n; g_string = s; ++g_calls; if (!g_runs) ++g_runs; } } }
'''
def U(n): return V(n, 'unsigned', 32, 'u')
def c32(k): return const(k, 32)
def bad(e): return disj(bnot(eq(e['abi'], e['lib_abi'])), T.ult(e['lib_number'], e['number']))
SET = 'const_cast<unsigned &>(Vc::Common::LIBRARY_VERSION_NUMBER) = lib_number; const_cast<unsigned &>(Vc::Common::LIBRARY_ABI_VERSION) = lib_abi; '
def printf(ex, st, v): return st, T.fresh('printf', 32)
def hints(e):
    vs = [0x010409, 0x010408, 0x01040a, 0x020000, 0x010500, 0]
    return {e['abi']: lambda rng: rng.randrange(4, 7), e['lib_abi']: lambda rng: rng.randrange(4, 7), e['number']: lambda rng: rng.choice(vs), e['lib_number']: lambda rng: rng.choice(vs)}
RB = Ret('bool', 1, 'b')

def library(cfg):
    ps = [U('abi'), U('number'), U('lib_abi'), U('lib_number')]
    ext = {'printf': printf, 'puts': printf, 'fprintf': printf, 'fputs': printf}
    yield Contract('check_aborts', ps, SET + 'Vc::Common::checkLibraryAbi(abi, number, "x");', aborts=bad, post=lambda e: [('accepted', bnot(bad(e)))], opts={'externals': ext, 'hints': hints})
    yield Contract('check_accepts', ps, SET + 'Vc::Common::checkLibraryAbi(abi, number, "x"); return true;', ret=RB, pre=lambda e: [bnot(bad(e))], post=lambda e: [('returns', eq(e.ret, TRUE))], opts={'externals': ext, 'hints': hints})
def header(cfg):
    text = open(build.REPO + '/Vc/version.h').read()
    m = re.search(r'#define Vc_VERSION_STRING "(\d+)\.(\d+)\.(\d+)(.*?)"', text)
    ma, mi, pa = (int(x) for x in m.groups()[:3]); number = ma << 16 | mi << 8 | pa << 1 | bool(m.group(4))
    W = V('a1', 'int', 32, 's')
    f = ['a1', 'a2', 'a3', 'b1', 'b2', 'b3']
    ps = [V(n, 'int', 32, 's') for n in f]
    def pre(e): return [T.ult(e[n], c32({'1': 1 << 15, '2': 256, '3': 128}[n[1]])) for n in f]
    def lex(e):
        lt = lambda n: T.ult(e['a' + n], e['b' + n]); same_ = lambda n: eq(e['a' + n], e['b' + n])
        return disj(lt('1'), conj(same_('1'), lt('2')), conj(same_('1'), same_('2'), lt('3')))
    def hh(e): return {e[n]: (lambda rng, m={'1': 4, '2': 256, '3': 128}[n[1]]: rng.choice([0, 1, 2, 3, m - 1, m // 2]) % m) for n in f}
    yield Contract('version_order', ps, 'return Vc_VERSION_CHECK(a1, a2, a3) < Vc_VERSION_CHECK(b1, b2, b3);', ret=RB, pre=pre, post=lambda e: [('lexicographic', eq(e.ret, lex(e)))], opts={'hints': hh})
    o = lambda n: P('o', 'unsigned *', 'u', 32, n, 'out', align=4)
    yield Contract('version_number', [o(3)], 'o[0] = Vc::versionNumber(); o[1] = Vc_VERSION_NUMBER; o[2] = Vc_IS_VERSION_2 ? 2 : Vc_IS_VERSION_1 ? 1 : 0;',
                   post=lambda e: [('versionNumber() encodes the version string', eq(e.out['o'][0], c32(number))), ('Vc_VERSION_NUMBER', eq(e.out['o'][1], c32(number))), ('Vc_IS_VERSION_n', eq(e.out['o'][2], c32(2 if (ma, mi, pa) >= (1, 70, 0) else 1)))])
    yield Contract('version_number_order', [V('a1', 'int', 32, 's'), V('a2', 'int', 32, 's'), V('a3', 'int', 32, 's')], 'return Vc_VERSION_NUMBER >= Vc_VERSION_CHECK(a1, a2, a3);', ret=RB,
                   pre=lambda e: [T.ult(e['a1'], c32(1 << 15)), T.ult(e['a2'], c32(256)), T.ult(e['a3'], c32(128))],
                   post=lambda e: [('this version is at least the given one', eq(e.ret, bnot(disj(T.ult(c32(ma), e['a1']), conj(eq(c32(ma), e['a1']), T.ult(c32(mi), e['a2'])), conj(eq(c32(ma), e['a1']), eq(c32(mi), e['a2']), T.ult(c32(pa), e['a3']))))))])
    # the constructor that every translation unit runs at start-up
    yield Contract('startup_check', [o(5)], 'g_calls = 0; Vc::Common::runLibraryAbiCheck c; (void)c; o[0] = g_abi; o[1] = g_number; o[2] = g_calls; o[3] = 1; for (int i = 0; i < int(sizeof(Vc_VERSION_STRING)); ++i) if (g_string[i] != Vc::versionString()[i]) o[3] = 0; o[4] = Vc_LIBRARY_ABI_VERSION;',
                   post=lambda e: [('passes the ABI number of the headers', eq(e.out['o'][0], e.out['o'][4])), ('passes the version of the headers', eq(e.out['o'][1], c32(number))), ('checks once', eq(e.out['o'][2], c32(1))), ('passes the version string', eq(e.out['o'][3], c32(1)))])
    # the dynamic initialisation of every translation unit that includes the headers runs the check
    yield Contract('startup_runs', [o(4)], 'o[0] = g_runs; o[1] = g_abi; o[2] = g_number; o[3] = Vc_LIBRARY_ABI_VERSION;', post=lambda e: [('ran', eq(e.out['o'][0], c32(1))), ('abi', eq(e.out['o'][1], e.out['o'][3])), ('version', eq(e.out['o'][2], c32(number)))], opts={'ctors': True, 'static_init': True})
# the library as it is built: it carries the numbers of its own headers, so it accepts them
def own(cfg):
    o = P('o', 'unsigned *', 'u', 32, 4, 'out', align=4)
    yield Contract('library_numbers', [o], 'o[0] = Vc::Common::LIBRARY_VERSION_NUMBER; o[1] = Vc_VERSION_NUMBER; o[2] = Vc::Common::LIBRARY_ABI_VERSION; o[3] = Vc_LIBRARY_ABI_VERSION;',
                   post=lambda e: [('version', eq(e.out['o'][0], e.out['o'][1])), ('abi', eq(e.out['o'][2], e.out['o'][3]))])
    yield Contract('library_accepts_own_headers', [], 'Vc::Common::checkLibraryAbi(Vc_LIBRARY_ABI_VERSION, Vc_VERSION_NUMBER, Vc_VERSION_STRING); return true;', ret=RB, post=lambda e: [('returns', eq(e.ret, TRUE))])
    yield Contract('library_rejects_newer_headers', [U('number')], 'Vc::Common::checkLibraryAbi(Vc_LIBRARY_ABI_VERSION, number, "x");', pre=lambda e: [T.ult(c32(cur()), e['number'])], aborts=lambda e: TRUE, post=lambda e: [('does not return', FALSE)], opts={'externals': EXT})
    yield Contract('library_rejects_other_abi', [U('abi'), U('number')], 'if (abi == Vc_LIBRARY_ABI_VERSION) abort(); Vc::Common::checkLibraryAbi(abi, number, "x");', aborts=lambda e: TRUE, post=lambda e: [('does not return', FALSE)], opts={'externals': EXT})
OWN = r"""
#define Vc_COMPILE_LIB 1
#include "src/const.cpp"
namespace Vc_VERSIONED_NAMESPACE { namespace Common { void checkLibraryAbi(unsigned, unsigned, const char *); } }
"""
EXT = {'printf': printf, 'puts': printf, 'fprintf': printf, 'fputs': printf}
def cur():
    text = open(build.REPO + '/Vc/version.h').read()
    m = re.search(r'#define Vc_VERSION_STRING "(\d+)\.(\d+)\.(\d+)(.*?)"', text)
    ma, mi, pa = (int(x) for x in m.groups()[:3]); return ma << 16 | mi << 8 | pa << 1 | bool(m.group(4))
def groups(tier): return [g for c in ('sse2', 'avx2') for g in (Group(c, list(library(c)), prelude=LIB, links=[]), Group(c, list(own(c)), prelude=OWN, links=[]), Group(c, list(header(c)), prelude=HEAD, links=[]))]

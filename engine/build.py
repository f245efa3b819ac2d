"""Extraction: compiles wrapper translation units with clang's front end (no optimisation pass) to
LLVM IR, and natively with g++ for replaying counterexamples."""
import os, subprocess, sys, hashlib, tempfile, atexit, shutil
REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class Config:
    def __init__(self, name, march, defs=(), gcc=True, abis=('Scalar', 'Sse', 'Avx')):
        self.name = name; self.march = march; self.defs = list(defs); self.gcc = gcc; self.abis = abis
CONFIGS = {
    'avx2': Config('avx2', ['-march=haswell']),
    'avx': Config('avx', ['-mavx']),
    'sse42': Config('sse42', ['-msse4.2', '-mpopcnt'], abis=('Scalar', 'Sse')),
    'sse41': Config('sse41', ['-msse4.1'], abis=('Scalar', 'Sse')),
    'ssse3': Config('ssse3', ['-mssse3'], abis=('Scalar', 'Sse')),
    'sse2': Config('sse2', ['-msse2'], abis=('Scalar', 'Sse')),
    'avx2clang': Config('avx2clang', ['-march=haswell'], gcc=False),
    'sse2clang': Config('sse2clang', ['-msse2'], gcc=False, abis=('Scalar', 'Sse')),
}
_wd = None
def workdir():
    global _wd
    if _wd is None:
        _wd = os.environ.get('VC_VERIF_WORK')
        if not _wd:
            _wd = tempfile.mkdtemp(prefix='vcverif.')
            os.environ['VC_VERIF_WORK'] = _wd
            pid = os.getpid()
            def clean():
                if os.getpid() == pid: shutil.rmtree(_wd, ignore_errors=True)
            atexit.register(clean)
    return _wd

CXX = ['-std=c++14', '-w', '-DNDEBUG', '-fno-strict-aliasing', '-I' + REPO, '-I' + os.path.join(REPO, 'include')]
def clang_cmd(cfg, src, out):
    return ['clang++', *CXX, *cfg.march, *['-D' + d for d in cfg.defs], *(['-include', os.path.join(HERE, 'gccmode.h')] if cfg.gcc else []),
            '-O2', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-exceptions' if False else '-fexceptions',
            '-S', '-emit-llvm', src, '-o', out]
def gcc_cmd(cfg, src, out, opt='-O1'):
    comp = 'g++' if cfg.gcc else 'clang++'
    return [comp, *CXX, *cfg.march, *['-D' + d for d in cfg.defs], opt, '-DVC_NATIVE', '-ffp-contract=off', '-fPIC', '-shared', '-Wl,-Bsymbolic', src, '-o', out]

def run(cmd, timeout=600):
    # no pipes: workers forked meanwhile would inherit their write ends and keep them open
    with tempfile.TemporaryFile('w+', dir=workdir()) as err:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, timeout=timeout)
        err.seek(0)
        return p.returncode, err.read()

def link_sources(cfg, links):
    """extra library sources linked into a configuration: (source, extra defs, extra flags)"""
    return links

_so_cache = {}
def native_so(c, cfg, wd):
    key = (c.name, cfg.name)
    if key in _so_cache: return _so_cache[key]
    h = hashlib.md5((c.name + cfg.name + str(os.getpid())).encode()).hexdigest()[:10]
    src = os.path.join(wd, 'nat_%s.cpp' % h); so = os.path.join(wd, 'nat_%s.so' % h)
    with open(src, 'w') as f:
        f.write(c.prelude if getattr(c, 'prelude', None) else '#include <Vc/Vc>\n')
        f.write(c.source())
    extra = []
    for i, (s, defs, flags, text) in enumerate(getattr(c, 'links', [])):
        o = os.path.join(wd, 'nat_%s_%d.o' % (h, i))
        if text is not None:
            s = os.path.join(wd, 'nat_%s_%d.cpp' % (h, i))
            with open(s, 'w') as f: f.write(text)
        rc, err = run(['g++' if cfg.gcc else 'clang++', *CXX, *(flags or cfg.march), *['-D' + d for d in defs], '-O1', '-fPIC', '-c', s, '-o', o])
        if rc: 
            _so_cache[key] = None
            return None
        extra.append(o)
    cmd = gcc_cmd(cfg, src, so)
    rc, err = run(cmd + extra)
    if rc:
        sys.stderr.write(err[:2000])
        so = None
    _so_cache[key] = so
    return so

#!/usr/bin/env python3
"""Lists the casts between vector (and mask) types that the library offers, per configuration.
Writes contracts/casts.json: cfg -> [[kind, to, from, k, offset]].  Run by hand when the set of
supported casts grows; the check verifies every listed cast (one that no longer compiles fails)."""
import sys, os, json, re, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/engine', R + '/contracts']
from vclib import *
def probe(cfg):
    c = build.CONFIGS[cfg]
    vs = vecs(cfg)
    lines = ['#include <Vc/Vc>']; what = {}
    for kind in ('v', 'm'):
        for to in vs:
            for fr in vs:
                ct, cf = (to.cxx, fr.cxx) if kind == 'v' else (to.mask, fr.mask)
                kmax = max(1, -(-to.n // fr.n))
                for k in range(1, kmax + 1):
                    lines.append('void f%d(%s *r, const %s *a) { *r = Vc::simd_cast<%s>(%s); }' % (len(lines), ct, cf, ct, ', '.join('a[%d]' % i for i in range(k))))
                    what[len(lines)] = (kind, to.tag, fr.tag, k, None)
                for o in range(0, max(1, -(-fr.n // to.n))):
                    lines.append('void f%d(%s *r, const %s *a) { *r = Vc::simd_cast<%s, %d>(a[0]); }' % (len(lines), ct, cf, ct, o))
                    what[len(lines)] = (kind, to.tag, fr.tag, 1, o)
                if kind == 'v':
                    lines.append('void f%d(%s *r, const %s *a) { *r = static_cast<%s>(a[0]); }' % (len(lines), ct, cf, ct))
                    what[len(lines)] = ('ctor', to.tag, fr.tag, 1, None)
                    if to.bytes == fr.bytes:
                        lines.append('void f%d(%s *r, const %s *a) { *r = Vc::reinterpret_components_cast<%s>(a[0]); }' % (len(lines), ct, cf, ct))
                        what[len(lines)] = ('rcc', to.tag, fr.tag, 1, None)
                else:
                    lines.append('void f%d(%s *r, const %s *a) { *r = static_cast<%s>(a[0]); }' % (len(lines), ct, cf, ct))
                    what[len(lines)] = ('mctor', to.tag, fr.tag, 1, None)
    src = '/tmp/probe_%s.cpp' % cfg
    open(src, 'w').write('\n'.join(lines) + '\n')
    cmd = ['clang++', *build.CXX, *c.march, *['-D' + d for d in c.defs], *(['-include', os.path.join(build.HERE, 'gccmode.h')] if c.gcc else []), '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    bad = set(int(x) for x in re.findall(re.escape(src) + r':(\d+):', p.stderr))
    os.unlink(src)
    return [w for l, w in what.items() if l not in bad], len(what)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    out = {}
    with ThreadPoolExecutor(8) as tp:
        for cfg, (ok, n) in zip(ALL_CFGS, tp.map(probe, ALL_CFGS)):
            out[cfg] = ok; print(cfg, len(ok), 'of', n)
    json.dump(out, open(R + '/contracts/casts.json', 'w'), separators=(',', ':'))

"""probe_compile.py PROP CFG: stubs of a property that do not compile (a development aid)"""
import sys, re, os, importlib, subprocess, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/engine', R + '/contracts']
sys.setrecursionlimit(100000)
import build
from concurrent.futures import ThreadPoolExecutor
m = importlib.import_module(sys.argv[1])
bad = {}
with tempfile.TemporaryDirectory() as d:
    jobs = []
    for g in m.groups(os.environ.get('TIER', 'quick')):
        if g.cfg.name != sys.argv[2]: continue
        cs = list(g.contracts); n = max(1, -(-len(cs) // 120))
        for k in range(n): jobs.append((g, cs[k::n], '%s/p%d.cpp' % (d, len(jobs))))
    def go(j):
        g, cs, f = j
        open(f, 'w').write(g.prelude + ''.join(c.source() for c in cs))
        cmd = build.clang_cmd(g.cfg, f, '/dev/null') + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0']
        err = subprocess.run(cmd, capture_output=True, text=True).stderr
        lines = open(f).read().split('\n')
        for blk in re.split(r'\n(?=[^\n]*: error: )', '\n' + err):
            mm = re.search(r': error: (.*)', blk)
            if not mm: continue
            for l in set(re.findall(re.escape(f) + r':(\d+):', blk)):
                x = re.search(r'extern "C".*? (\w+)\(', lines[int(l) - 1])
                if x: bad.setdefault(x.group(1), mm.group(1)[:150])
    with ThreadPoolExecutor(6) as tp: list(tp.map(go, jobs))
for k in sorted(bad): print(k, '::', bad[k])

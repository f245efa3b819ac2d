import sys, os, subprocess, json
def seed(id, prop, edits, demo, needs, breaks, flags='-march=haswell', opt='-O1', extra='', libs='const cpuid support_x86'):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    W='/tmp/z/seedrepo'
    subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (W,W,W) if not os.path.exists(W) else 'true', shell=True, check=True)
    for f, a, b in edits:
        p=W+'/'+f; s=open(p).read()
        assert s.count(a)==1, (f, a, s.count(a))
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property holds on the inputs of demo.cpp
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
set -e
R=$PWD
g++ -std=c++14 -w %s %s -I"$R" -I"$R/include" %s "$here/demo.cpp" -c -o "$t/demo.o"
for f in %s; do g++ -std=c++14 -w -O1 %s -DVc_COMPILE_LIB -I"$R" -I"$R/include" -c "$R/src/$f.cpp" -o "$t/$f.o"; done
g++ "$t"/*.o -o "$t/demo"
timeout 60 "$t/demo"
''' % (opt, flags, extra, libs, flags))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    os.chmod(d+'/demo.sh',0o755)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=W,capture_output=True,text=True)
    subprocess.run(['git','-C',W,'checkout','-q','--','.'])
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=W,capture_output=True,text=True)
    ok = r0.returncode==0 and r1.returncode!=0
    print(id, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode)
    if not ok: print(r0.stdout[-500:], r0.stderr[-1500:], '---', r1.stdout[-500:], r1.stderr[-500:])

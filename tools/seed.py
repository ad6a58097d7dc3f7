"""seed.py ID...|all: (re)creates /verif/seeded/<ID> from tools/seeds_def.py and confirms it in a scratch copy of /repo"""
import sys, os, json, subprocess, tempfile, shutil, importlib.util
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
spec = importlib.util.spec_from_file_location('seeds_def', os.path.join(H, 'seeds_def.py'))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)

DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
S=$PWD/_build/src
%s
cd "$T" && timeout 60 ./demo >out.txt 2>err.txt
r=$?
tail -3 out.txt
exit $r
'''
CC = 'gcc -g -w %s -I"$S" "$D/demo.c" "$S/libmpi-serial.a" -lgfortran -lm -o "$T/demo" || exit 3'
FC = 'gfortran -g -w -I"$S" "$D/demo.F90" "$S/libmpi-serial.a" -J "$T" -o "$T/demo" || exit 3'


def make(id, s):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % w, shell=True, check=True)
        subprocess.run('cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm x' % w, shell=True, check=True)
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            n = s.get('nth', {}).get(f)
            if n is None:
                assert t.count(old) == 1, (id, f, t.count(old))
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, 'w').write(t)
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if 'f90' in s:
        open(os.path.join(d, 'demo.F90'), 'w').write(s['f90'])
        body = FC
    else:
        open(os.path.join(d, 'demo.c'), 'w').write(s['c'])
        body = CC % s.get('cflags', '')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % body)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def confirm(id, d):
    sc = os.path.join(H, 'scratch.sh')
    a = subprocess.run([sc, '-', 'bash', '-c', 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d], capture_output=True, text=True)
    b = subprocess.run([sc, d + '/patch.diff', 'bash', '-c', 'bash /opt/vp/build.sh >/tmp/bl.$$ 2>&1 || { tail -5 /tmp/bl.$$; exit 77; }; rm -f /tmp/bl.$$; '
                        'bash /opt/vp/test.sh /tmp/o.$$ >/dev/null 2>&1; python3 - /tmp/o.$$ <<"X"\nimport json,sys\nb=json.load(open("/opt/vp/BASELINE.json"))["stable"]\n'
                        'o=json.load(open(sys.argv[1]))\np=set(o.get("passed",[]))\nm=[x for x in b if x not in p]\nprint("MISSING",m[:4]) if m else print("TESTSOK")\nX\nrm -f /tmp/o.$$; '
                        'bash %s/demo.sh; echo DEMO $?' % d], capture_output=True, text=True)
    good = a.returncode == 0 and 'TESTSOK' in b.stdout and 'DEMO 0' not in b.stdout and 'DEMO 3' not in b.stdout and b.returncode == 0
    print(id, 'CONFIRMED' if good else 'BAD', '' if good else (a.returncode, a.stdout[-300:], a.stderr[-500:], b.stdout[-500:], b.stderr[-500:]), flush=True)
    return good


ids = sys.argv[1:]
if ids == ['all']:
    ids = list(m.SEEDS)
for i in ids:
    d = make(i, m.SEEDS[i])
    confirm(i, d)

"""Constants of /repo's current mpi.h / mpiP.h / type.h, by value, obtained from the compiler on every run."""
import os, re, subprocess, tempfile, shutil
from vc.build import REPO

_c = {}


def macros(hdrs):
    d = tempfile.mkdtemp(prefix='vck')
    try:
        src = os.path.join(d, 'k.c')
        with open(src, 'w') as f:
            f.write('\n'.join('#include "%s"' % h for h in hdrs) + '\n')
        t = subprocess.run(['gcc', '-DFORTRAN_UNDERSCORE_', '-I' + REPO, '-dM', '-E', src], capture_output=True, text=True).stdout
        names = [m.group(1) for m in re.finditer(r'^#define (\w+)[ \t]+\S', t, re.M)
                 if re.match(r'(MPI_|SIMPLE_|FSIZE_)', m.group(1))]
        vals = {}
        for n in names:
            vals[n] = None
        # values: one enumerable array; constants that do not convert to long are dropped one by one
        def run(ns):
            with open(src, 'w') as f:
                f.write('\n'.join('#include "%s"' % h for h in hdrs) + '\n#include <stdio.h>\nint main(void){\n')
                for n in ns:
                    f.write('printf("%%s %%ld\\n","%s",(long)(%s));\n' % (n, n))
                f.write('return 0;}\n')
            r = subprocess.run(['gcc', '-w', '-DFORTRAN_UNDERSCORE_', '-I' + REPO, src, '-o', src + '.x'], capture_output=True, text=True)
            if r.returncode:
                return None, r.stderr
            return dict((a, int(b)) for a, b in (l.split() for l in subprocess.run([src + '.x'], capture_output=True, text=True).stdout.splitlines())), ''
        ns = list(names)
        for _ in range(40):
            v, err = run(ns)
            if v is not None:
                return v
            lines = open(src).read().split('\n')
            bad = {int(m.group(1)) for m in re.finditer(r'k\.c:(\d+):', err)}
            drop = set()
            for b in bad:
                m = re.search(r'"(MPI_\w+|SIMPLE_\w+|FSIZE_\w+)"', lines[b - 1]) if b <= len(lines) else None
                if m:
                    drop.add(m.group(1))
            if not drop:
                raise RuntimeError('constants: ' + err[-500:])
            ns = [n for n in ns if n not in drop]
        raise RuntimeError('constants do not compile')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def K(name):
    if not _c:
        _c.update(macros(['mpiP.h', 'type.h']))
    return _c[name]


def allk():
    K('MPI_SUCCESS')
    return dict(_c)

"""Search for a concrete failing run of the real library (illustrates a failed obligation; decides nothing).

Builds /repo's current sources in a scratch directory with AddressSanitizer, then runs w.cpp (randomized runs against
a reference model) and, for the Fortran layer, a generated recorder that stands in for every C operation."""
import os, re, glob, subprocess, tempfile, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0', LC_ALL='C')
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors='replace', timeout=t, env=ENV)


def objects(d):
    procs = []
    for f in sorted(glob.glob(os.path.join(REPO, '*.c'))):
        o = os.path.join(d, os.path.basename(f)[:-2] + '.o')
        procs.append((o, subprocess.Popen(['gcc', '-g', '-O0', '-w', '-DFORTRAN_UNDERSCORE_', '-I' + REPO] + SAN + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for o, p in procs:
        if p.wait():
            return None
    return [o for o, _ in procs]


def search(prop, seed, secs):
    d = tempfile.mkdtemp(prefix='vcwit')
    try:
        objs = objects(d)
        if objs is None:
            return None
        if prop in ('C15', 'C21', 'C22', 'ALL'):
            r = constants(d) if prop in ('C22', 'ALL') else None
            r = r or fort(d, objs, seed, min(secs, 20))
            if r:
                return r
        if prop == 'C21':
            return None
        open(os.path.join(d, 'stub.c'), 'w').write('void mpi_save_fort_pointers_(int*,int*,int*); static int a[4],b[4],c; void mpi_get_fort_pointers_(void){ mpi_save_fort_pointers_(a,b,&c); }\n')
        r = sh(['g++', '-std=c++17', '-g', '-O1', '-w', '-I' + REPO] + SAN + [os.path.join(HERE, 'w.cpp'), '-x', 'c++', '-o', 'w', '-x', 'none'] + objs + ['-x', 'c', 'stub.c'], d)
        if r.returncode:
            return None
        r = sh(['./w', prop, str(seed), str(secs)], d, secs + 120)
        if r.returncode == 1 and r.stdout.startswith('FAIL'):
            return r.stdout
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def constants(d):
    """the constants of mpif.h against those of mpi.h, printed by one program in each language"""
    names = sorted(set(n.upper() for n in re.findall(r'(?i)parameter *\( *(mpi_\w+) *=', open(os.path.join(REPO, 'mpif.h')).read())) |
                   set(n.upper() for n in re.findall(r'(?i)[(,&]\s*(mpi_\w+) *= *[-\d]', open(os.path.join(REPO, 'mpif.h')).read())))
    h = open(os.path.join(REPO, 'mpi.h')).read()
    both = [n for n in names if re.search(r'#define +%s\b' % n, h) and n not in ('MPI_IN_PLACE', 'MPI_STATUS_SIZE')]
    both = [n for n in both if n not in ('MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR')]
    open(os.path.join(d, 'k.F90'), 'w').write('program k\nimplicit none\ninclude "mpif.h"\n' + ''.join("print '(A,I12)','%s ',%s\n" % (n, n) for n in both) +
                                              "print '(A,I12)','SIZE ',MPI_STATUS_SIZE\nprint '(A,I12)','SRC ',MPI_SOURCE\nprint '(A,I12)','TAG ',MPI_TAG\nprint '(A,I12)','ERR ',MPI_ERROR\nend\n")
    open(os.path.join(d, 'k.c'), 'w').write('#include <stdio.h>\n#include <stddef.h>\n#include <mpi.h>\nint main(){' + ''.join('printf("%s %%d\\n",(int)(long)(%s));' % (n, n) for n in both) +
                                            'printf("SIZE %d\\nSRC %d\\nTAG %d\\nERR %d\\n",(int)(sizeof(MPI_Status)/4),(int)offsetof(MPI_Status,MPI_SOURCE)/4+1,(int)offsetof(MPI_Status,MPI_TAG)/4+1,(int)offsetof(MPI_Status,MPI_ERROR)/4+1);return 0;}')
    a = sh(['gfortran', '-w', '-ffree-line-length-none', '-I' + REPO, 'k.F90', '-o', 'kf'], d)
    b = sh(['gcc', '-w', '-I' + REPO, 'k.c', '-o', 'kc'], d)
    if a.returncode or b.returncode:
        return None
    x = [l.split() for l in sh(['./kf'], d).stdout.split('\n') if l.strip()]
    y = [l.split() for l in sh(['./kc'], d).stdout.split('\n') if l.strip()]
    bad = ['%s is %s in Fortran and %s in C' % (p[0], p[1], q[1]) for p, q in zip(x, y) if p != q]
    return 'FAIL C22\n' + '\n'.join(bad) if bad else None


def fort(d, objs, seed, secs):
    sys.path.insert(0, os.path.dirname(HERE))
    from contracts.fortran import TABLE
    names = sorted(set(s[0] for s in TABLE.values()))
    fd = os.path.join(d, 'f')
    os.mkdir(fd)
    ws = os.path.join(fd, 'names')
    open(ws, 'w').write('\n'.join(names) + '\n')
    ob = []
    for o in objs:
        o2 = os.path.join(fd, os.path.basename(o))
        if sh(['objcopy', '--weaken-symbols=' + ws, o, o2], fd).returncode:
            return None
        ob.append(o2)
    n1, n2 = [], []
    have = sh(['nm'] + objs, d).stdout
    for i, n in enumerate(names):
        nargs = max(len(s[1]) for s in TABLE.values() if s[0] == n)
        ps = ', '.join('long a%d' % k for k in range(nargs)) or 'void'
        n1.append('int %s(%s) { long a[] = {%s}; return rec(%d, a); }' % (n, ps, ', '.join('a%d' % k for k in range(nargs)) or '0', i))
    for w, (n, sp, ex) in sorted(TABLE.items()):
        if not re.search(r' T %s\n' % w, have):
            continue
        canon = 'MPI_Send' if n in ('MPI_Ssend', 'MPI_Rsend') else n
        n2.append('{"%s", (void*)%s, %d, %d, "%s", "%s"},' % (w, w, names.index(n), names.index(canon), sp, ex))
    decl = ''.join('void %s(void);' % w for w in TABLE if re.search(r' T %s\n' % w, have))
    open(os.path.join(fd, 'gen.h'), 'w').write('\n'.join(n1) + '\n' + decl + '\nstatic const char *NAMES[] = {' + ','.join('"%s"' % n for n in names) + '};\nstatic struct W WR[] = {\n' + '\n'.join(n2) + '\n};\n')
    r = sh(['gcc', '-g', '-O0', '-w', '-I' + fd] + SAN + [os.path.join(HERE, 'fort.c')] + ob + ['-o', 'wf'], fd)
    if r.returncode:
        return None
    r = sh(['./wf', str(seed), str(secs)], fd, secs + 60)
    if r.returncode:
        return 'FAIL C21\n' + (r.stdout + r.stderr)[:3000]
    return None


if __name__ == '__main__':
    print(search(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])))

"""C22: the constants of the two interfaces, and the status layout, as the compilers see them on every run."""
import os, re, subprocess, tempfile, shutil
from .base import *
from .consts import K, allk
from vc.build import REPO


def fortran_constants():
    txt = re.sub(r'!.*', '', open(os.path.join(REPO, 'mpif.h')).read(), flags=re.M)
    txt = re.sub(r'&\s*\n\s*&?', ' ', txt)
    names = []
    for m in re.finditer(r'parameter\s*\((.*?)\)\s*$', txt, re.I | re.M):
        for n in re.findall(r'(\w+)\s*=', m.group(1)):
            names.append(n)
    for m in re.finditer(r'parameter\b[^\n]*::\s*([^\n]*)', txt, re.I):
        for n in re.findall(r'(\w+)\s*=', m.group(1)):
            names.append(n)
    names = sorted(set(names), key=names.index)
    d = tempfile.mkdtemp(prefix='vcf')
    try:
        def attempt(ns):
            src = os.path.join(d, 'k.F90')
            with open(src, 'w') as f:
                f.write('program k\nimplicit none\ninclude "mpif.h"\n')
                for n in ns:
                    f.write('print *, "%s", %s\n' % (n, n))
                f.write('end program\n')
            r = subprocess.run(['gfortran', '-w', '-ffree-form', '-ffree-line-length-none', '-I' + REPO, src, '-o', os.path.join(d, 'k')], capture_output=True, text=True)
            return r
        r = attempt(names)
        if r.returncode:
            bad = set(re.findall(r"Symbol '(\w+)'", r.stderr))
            names = [n for n in names if n.lower() not in bad]
            r = attempt(names)
            if r.returncode:
                raise RuntimeError(r.stderr[-800:])
        out = subprocess.run([os.path.join(d, 'k')], capture_output=True, text=True).stdout
        v = {}
        for l in out.splitlines():
            w = l.split()
            if len(w) == 2 and re.fullmatch(r'-?\d+', w[1]):
                v[w[0].upper()] = int(w[1])
        return v
    finally:
        shutil.rmtree(d, ignore_errors=True)


def status_layout():
    d = tempfile.mkdtemp(prefix='vcs')
    try:
        src = os.path.join(d, 's.c')
        with open(src, 'w') as f:
            f.write('#include <stdio.h>\n#include <stddef.h>\n#include "mpi.h"\nint main(void){printf("%d %d %d %d %d\\n",'
                    '(int)offsetof(MPI_Status,MPI_SOURCE),(int)offsetof(MPI_Status,MPI_TAG),(int)offsetof(MPI_Status,MPI_ERROR),'
                    '(int)sizeof(MPI_Status),(int)(sizeof(MPI_Request)==sizeof(int)&&sizeof(MPI_Comm)==sizeof(int)&&sizeof(MPI_Datatype)==sizeof(int)'
                    '&&sizeof(MPI_Group)==sizeof(int)&&sizeof(MPI_Op)==sizeof(int)&&sizeof(MPI_Fint)==sizeof(int)&&sizeof(MPI_Info)==sizeof(int)));return 0;}\n')
        r = subprocess.run(['gcc', '-w', '-I' + REPO, src, '-o', src + '.x'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-500:])
        return [int(x) for x in subprocess.run([src + '.x'], capture_output=True, text=True).stdout.split()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# constants a Fortran program obtains from mpif.h and that C also has: all must be present on both sides
NEEDED = '''MPI_COMM_WORLD MPI_ANY_SOURCE MPI_ANY_TAG MPI_PROC_NULL MPI_ROOT MPI_COMM_NULL MPI_REQUEST_NULL
MPI_GROUP_NULL MPI_GROUP_EMPTY MPI_UNDEFINED MPI_MAX_ERROR_STRING MPI_MAX_PROCESSOR_NAME MPI_STATUS_SIZE MPI_SUCCESS
MPI_INTEGER MPI_REAL MPI_DOUBLE_PRECISION MPI_COMPLEX MPI_LOGICAL MPI_CHARACTER MPI_BYTE MPI_PACKED MPI_LB MPI_UB'''.split()


def runner(e, u, prog):
    e.rootname = 'mpif.h/mpi.h'
    add = lambda lab, ok, why='': e.obls.append(Obl('mpif.h/mpi.h: C22: ' + lab, bool(ok), 0, 'evaluation', why=None if ok else why))
    fk = fortran_constants()
    ck = allk()
    FORTRAN_ONLY = {'MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR'}      # array positions, not values of C macros
    for n, v in sorted(fk.items()):
        if n in ck and n not in FORTRAN_ONLY:
            add('%s has the same value in Fortran and C' % n, v == ck[n], 'Fortran %d, C %d' % (v, ck[n]))
    for n in NEEDED:
        add('%s exists in both interfaces' % n, n in fk and n in ck, 'missing')
    lay = status_layout()
    for n, o in zip(('MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR'), lay):
        add('STATUS(%s) is status.%s' % (n, n), n in fk and (fk[n] - 1) * 4 == o, 'Fortran element %s, C byte offset %d' % (fk.get(n), o))
    add('MPI_STATUS_SIZE integers are the C status', fk.get('MPI_STATUS_SIZE', 0) * 4 == lay[3], 'Fortran %s integers, C %d bytes' % (fk.get('MPI_STATUS_SIZE'), lay[3]))
    add('every handle type is a C int, the Fortran integer', lay[4] == 1, 'handle type of another size')


Unit('MPI_Comm_f2c', Contract('constants'), ['C22'], runner=runner, title='mpif.h/mpi.h constants (evaluated by gfortran and gcc)')

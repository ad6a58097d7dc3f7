"""Compiles /repo's current sources to LLVM IR (in a scratch directory) and parses it."""
import os, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .engine import Program

REPO = os.environ.get('VC_REPO', '/repo')
PASSES = 'sroa,simplifycfg,loop-simplify,lcssa'
CFLAGS = ['-DFORTRAN_UNDERSCORE_', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
          '-emit-llvm', '-S', '-w']


class BuildError(Exception):
    pass


def compile_all(files=None):
    d = tempfile.mkdtemp(prefix='vcir')
    try:
        srcs = files or sorted(glob.glob(os.path.join(REPO, '*.c')))

        def one(s):
            b = os.path.basename(s)[:-2]
            o1, o2 = os.path.join(d, b + '.ll'), os.path.join(d, b + '.o.ll')
            r = subprocess.run(['clang', '-I' + REPO] + CFLAGS + [s, '-o', o1], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-2000:])
            r = subprocess.run(['opt', '-S', '-passes=' + PASSES, o1, '-o', o2], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-2000:])
            return b, ir.parse(open(o2).read(), os.path.basename(s))
        with ThreadPoolExecutor(8) as ex:
            mods = dict(ex.map(one, srcs))
        return Program(mods)
    finally:
        shutil.rmtree(d, ignore_errors=True)

#!/usr/bin/env python3-vt
"""labels that no property of the unit counts, or that only some of its properties count"""
import sys, os, importlib, multiprocessing as mp
sys.path.insert(0, '/verif')
from vc import build
from vc.engine import *
import contracts.base as B
src = open('/verif/check.py').read()
ns = {}
exec(src[src.index('def tags('):src.index('def closure(')], ns)
for m in open('/verif/contracts/MODULES').read().split() if os.path.exists('/verif/contracts/MODULES') else []:
    importlib.import_module('contracts.' + m)
P = build.compile_all()
def one(i):
    u = B.UNITS[i]
    e = Engine(P, dict(u.callees), dict(u.opts, retries=(), cvc5=False))
    e.prove_stub = True
    try:
        (u.runner(e, u, P) if u.runner else e.verify(u.fname, u.contract, u.mod))
    except Exception as x:
        return i, ['EXC %s' % x]
    return i, sorted(set(o.label.split(': ', 1)[1] if ': ' in o.label else o.label for o in e.obls))
if __name__ == '__main__':
    with mp.Pool(7, maxtasksperchild=1) as p:
        for i, ls in p.imap(one, range(len(B.UNITS)), chunksize=1):
            u = B.UNITS[i]
            for l in ls:
                t = ns['tags'](l)
                if t is not None and set(u.props) - t:
                    print('%s\t%s\t%s\t%s' % (u.title, ','.join(sorted(set(u.props) - t)), ','.join(sorted(t)), l), flush=True)
                elif l.startswith('EXC'):
                    print(u.title, l, flush=True)

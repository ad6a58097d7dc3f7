import sys; sys.path.insert(0,'/verif')
import cProfile, pstats, importlib, threading, time, os
from vc import build
from vc.engine import *
import contracts.base as B
mod, fn, secs = sys.argv[1], sys.argv[2], int(sys.argv[3])
importlib.import_module('contracts.'+mod)
P=build.compile_all()
u=[u for u in B.UNITS if u.fname==fn][0]
e=Engine(P,dict(u.callees),dict(u.opts,retries=(),cvc5=False))
import contracts.spec as S
orig=S.explore
def ex(*a,**k):
    n=0; t=time.time()
    for x in orig(*a,**k):
        n+=1; print('  explore', a[3], n, x[0], len(x[1].taken), round(time.time()-t,1), 'obls', len(e.obls), 'q', e.queries, round(e.solver_time,1), flush=True); yield x
S.explore=ex
import faulthandler
faulthandler.dump_traceback_later(secs, exit=True)
e.verify(u.fname,u.contract,u.mod)
print(len(e.obls))

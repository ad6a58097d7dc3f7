import sys; sys.path.insert(0,'/verif')
import time, importlib
from vc import build
from vc.engine import *
import contracts.base as B
mod, fn = sys.argv[1:3]
importlib.import_module('contracts.'+mod)
P=build.compile_all()
for u in B.UNITS:
    if u.fname==fn:
        e=Engine(P,dict(u.callees),dict(u.opts,retries=(),cvc5=False)); t=time.time()
        (u.runner(e,u,P) if u.runner else e.verify(u.fname,u.contract,u.mod))
        print(fn,len(e.obls),'bad',sum(not o.ok for o in e.obls),round(time.time()-t,1))
        for o in sorted(e.obls,key=lambda o:-o.time)[:14]: print(round(o.time,2),o.ok,o.label[:150],o.why)

import sys; sys.path.insert(0,'/verif')
import time, importlib
from vc import build
from vc.engine import *
import contracts.base as B
def main(modname, only=None, **o):
    import re
    deps=[x for x in re.findall(r'^from \.(\w+) import',open('/verif/contracts/%s.py'%modname).read(),re.M)]
    for d in deps: importlib.import_module('contracts.'+d)
    n0=len(B.UNITS)
    m=importlib.import_module('contracts.'+modname)
    own=B.UNITS[n0:]
    P=build.compile_all()
    for u in B.UNITS:
        if only and u.fname not in only: continue
        if not only and u not in own: continue
        e=Engine(P,dict(u.callees),dict(u.opts,**o)); t=time.time()
        (u.runner(e,u,P) if u.runner else e.verify(u.fname,u.contract,u.mod))
        bad=[x for x in e.obls if not x.ok]
        print(u.title,len(e.obls),'bad',len(bad),'t',round(time.time()-t,1),'q',e.queries,'inl',sorted(e.inlined),'paths',e.pathcount,flush=True)
        for b in bad: print('   BAD',b.label,b.why)
main(sys.argv[1], sys.argv[2:] or None, retries=() if os.environ.get('FAST') else ({'smt.random_seed': 7},{'smt.mbqi': True}), cvc5=not os.environ.get('FAST'))

import sys; sys.path.insert(0,'/verif')
import time, importlib, os
from engine.symex import *
from engine import speclib
from engine.solve import discharge
modname, pat = sys.argv[1], (sys.argv[2] if len(sys.argv)>2 else '')
m = importlib.import_module('contracts.'+modname)
P=Program()
if hasattr(m,'load'): m.load(P)
else: P.add(['compressor/http2/http2Codec.py'],2)
used={speclib.REG[x] for x in sys.argv[3:]}
import os
if os.environ.get('CASE'):
    pass
for c in m.contracts:
    if not c.verify or pat not in c.key: continue
    t=time.time(); seen=set()
    v=Verifier(P,m.contracts,**(dict(tmo=int(os.environ['TMO'])) if 'TMO' in os.environ else {}))
    import multiprocessing as mp
    v.sem=mp.get_context('fork').Semaphore(8)
    obls=v.verify(c)
    used|=v.facts_used
    print(c.key, len(obls), 'ok', sum(o.ok for o in obls), 'paths', v.paths, 't', round(time.time()-t,2), v.notes, v.unterminated)
    for o in obls:
        if not o.ok and o.name not in seen: seen.add(o.name); print('  FAIL', o.name.split('::')[1], o.info[:int(__import__('os').environ.get('W','300'))])
        elif o.t>2: print('   slow', o.name, round(o.t,2), o.backend)
done,obl=speclib.closure(used)
for n,h,g,tm in obl:
    r=discharge(h,g,tm,Budget(time.time()+60))
    print(n, r[0], round(r[2],2), r[3] , r[4] if r[4] is not None and not r[0] else '')

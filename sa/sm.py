"""summaries of many entries"""
import sys, time, traceback, collections
sys.path.insert(0,'/verif/sa')
import facts, engine, models
from engine import *
import contracts
OPTS={}
def summary(feat,crate,pats,budget=None):
    c=__import__('extract').crate(feat,crate)
    for pat in pats:
        ks=[k for k in c.d['bodies'] if pat in k]
        k=([k for k in ks if k==pat] or ks)[0]
        E=Engine(c, models.M)
        E.opts.update(OPTS)
        t=time.time(); err=''
        try: E.start(k)
        except Exception as e:
            tb=traceback.extract_tb(e.__traceback__)[-1]
            err=f"!! {type(e).__name__} {e} [{tb.filename.split('/')[-1]}:{tb.lineno}]"
        kinds=collections.Counter((p.kind, p.why if p.kind=='panic' else '', p.where if p.kind=='panic' else '') for p in E.paths)
        print(f"{k[:70]}: {len(E.paths)}p {E.steps}st j{E.joins} {time.time()-t:.1f}s {err}")
        for kk,v in kinds.items(): print('     ',v,*kk)
        if E.unknown: print('     unknown',E.unknown)
if __name__=='__main__':
    a=sys.argv
    if '-c' in a: OPTS['contract']={**contracts.CIPHER,**contracts.HS}; a.remove('-c')
    if '-k' in a: OPTS['contract']=contracts.CIPHER; a.remove('-k')
    summary(sys.argv[1],sys.argv[2],sys.argv[3:])

import sys, time, traceback
sys.path.insert(0,'/verif/sa')
import facts, engine, models
from engine import *
def load(feat, crate):
    return __import__('extract').crate(feat,crate)
def key(c, pat):
    ks=[k for k in c.d['bodies'] if pat in k]
    return ks
def run(feat, crate, pat, quiet=False, evs=True, opts=None, setup=None, args=None, mon=None):
    c=load(feat,crate)
    ks=key(c,pat)
    ks=[k for k in ks if k==pat] or ks
    k=ks[0]
    E=Engine(c, models.M)
    E.opts.update(opts or {})
    if mon: E.monitors.append(mon)
    t=time.time()
    try:
        E.start(k,args,setup)
    except Exception as e:
        print("IMPRECISE",e)
        traceback.print_exc(limit=-6)
    print(f"{k}: {len(E.paths)} paths {E.steps} steps joins {E.joins} {time.time()-t:.2f}s unknown {E.unknown}")
    if not quiet:
        for p in E.paths:
            print('--',p.kind,p.why,p.where,str(p.ret)[:300])
            if evs:
                for e in p.trace():
                    print('     ',e.op,{k:str(v)[:140] for k,v in e.a.items()},e.where)
    return E
if __name__=='__main__':
    run(sys.argv[1],sys.argv[2],sys.argv[3],quiet='-q' in sys.argv, evs='-e' in sys.argv)

import sys
sys.path.insert(0,'/verif/sa')
import ctx
def show(feat,name,mod=None,coro=False,contract=None,kinds=('ret','panic','loop'),crate='bip324',evs=None,w=110,maxp=40,only=None):
    c=ctx.Ctx("X","quick")
    k=c.coroutine(feat,name,mod,crate) if coro else c.fn(feat,name,mod,crate)
    E=c.run(feat,k,crate=crate,contract=contract)
    print(len(E.paths),'paths unknown',dict(E.unknown))
    n=0
    for p in E.paths:
        if p.kind not in kinds: continue
        if only and not only(p): continue
        n+=1
        if n>maxp: break
        print('--',p.kind,p.why,p.where,str(p.ret)[:w*2])
        for e in p.trace():
            if evs and e.op not in evs: continue
            print('     ',e.op,{k:str(v)[:w] for k,v in e.a.items()})
    return c,E

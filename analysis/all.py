import sys,glob,time,os
sys.path.insert(0,'/verif/analysis')
from run import *
import collections
opq=collections.Counter()
import multiprocessing as mp
def one(c):
    out=[]
    prog=Program('/verif/.work/mir/%s.json'%c)
    o=collections.Counter()
    for name in ('instantiate','execute','query','reply','migrate','sudo'):
        try: fid=prog.find('contract::'+name)
        except KeyError: continue
        f=prog.fns[fid]
        names=[f["ln"].get(str(i+1),"p%d"%i).lstrip('_') for i in range(f["n"])]
        vs=[None]
        mi=[i for i,n in enumerate(names) if n=='msg']
        if mi and name!='instantiate':
            ty=prog.types[f['lt'][mi[0]+1]]
            if ty['k']=='adt' and prog.adts[ty['p']]['k']=='enum': vs=prog.variants(ty['p'])
        for v in vs:
            t=time.time()
            try:
                e,outs=entry(prog,'contract::'+name,names,('msg',v) if v else None)
                o.update(e.stats['opaque'])
                out.append((c,name,v,round(time.time()-t,2),e.stats['blocks'],len(outs),sum(not is_adt(r,'Err') for s,r in outs),sorted(short(x) for x in e.stats['capped'])))
            except Exception as x:
                import traceback
                out.append((c,name,v,round(time.time()-t,2),'FAIL',repr(x)[:200], traceback.format_exc()[-300:] if not isinstance(x,Limit) else ''))
    return out,o
if __name__=='__main__':
    cs=[os.path.basename(x)[:-5] for x in glob.glob('/verif/.work/mir/*.json')]
    cs=[c for c in cs if not any(k in c for k in ('testing','integration','custom_factory','hook_counter','interface'))]
    if len(sys.argv)>1: cs=sys.argv[1:]
    t=time.time()
    with mp.Pool(8) as p:
        for out,o in p.imap_unordered(one,cs):
            opq.update(o)
            for x in out: print(*x,flush=True)
    print(time.time()-t)
    for k,v in opq.most_common(): print(v,k)

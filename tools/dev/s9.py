import sys, os, json, glob, time, collections
sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/contracts')
from vc import safety as S
import c09
t0=time.time()
ds=[json.load(open(f)) for f in sorted(glob.glob('/tmp/vb/dump/src_*.json'))]
w=S.World(ds,c09,'/usr/lib/llvm-20/include')
print(len(w.f),'functions',round(time.time()-t0,1)); 
pat=sys.argv[1] if len(sys.argv)>1 else None
only=None
if pat:
    only=set(u for u in w.f if pat in u); todo=list(only)
    while todo:
        for v in w.calls[todo.pop()][0]:
            if v not in only: only.add(v); todo.append(v)
res=S.run(w,only,progress=lambda l,n: print('wave',l,n,round(time.time()-t0,1),flush=True))
json.dump(res,open('/tmp/s9.json','w'))
n=sum(len(r['obls']) for r in res.values()); k=sum(o['ok'] for r in res.values() for o in r['obls'])
print(k,'/',n,'proved; functions all proved', sum(not r['err'] and all(o['ok'] for o in r['obls']) for r in res.values()),'/',len(res), 'queries',sum(r['queries'] for r in res.values()))
for u,r in sorted(res.items()):
    if pat and pat not in u: continue
    if r['err']: print('ERR',u,r['err'])
    for o in r['obls']:
        if not o['ok']: print(f"{os.path.basename(o['file'])}:{o['line']} {r['n']}: {o['kind']} {o['why']}")
    if pat: print('   req',r['req'],'ens',r['nens'],'unchecked',r['unchecked'])

import sys; sys.path[:0]=['/verif/tools','/verif']
import check, time, importlib, json
pid=sys.argv[1]; m=importlib.import_module('native.'+(sys.argv[3] if len(sys.argv)>3 else pid.lower()))
c=check.Ctx(pid,'quick',1); b=float(sys.argv[2]) if len(sys.argv)>2 else 30; c.deadline=time.time()+b; c.deep=False; c.suspects=[]
t=time.time(); m.run(c); print(c.evals, len(c.distinct), f'{time.time()-t:.1f}s', 'fails', len(c.fails))
for k,tx,rp in c.fails[:3]: print(k,tx[:600]); print({a:(v if not isinstance(v,dict) else dict(v)) for a,v in rp.items()} if '-r' in sys.argv else '')
json.dump(c.fails[:5],open('/tmp/nat.json','w'),indent=1,default=str)
print(c.notes[:3])

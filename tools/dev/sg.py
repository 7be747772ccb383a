import sys, faulthandler
faulthandler.dump_traceback_later(20, exit=True)
exec(open('/tmp/s9.py').read().split("res=S.run")[0])
for u in [u for u in w.f if sys.argv[1] in u]:
    r=S.comp(w,[u],60); print(u, r[u]['seconds'], r[u]['queries'], [ (o['line'],o['why']) for o in r[u]['obls'] if not o['ok']])
    c=w.contract[u]
    for e,y in c.req: print(' req',e,y)
    for e,y in c.ens: print(' ens',str(e)[:300],y)

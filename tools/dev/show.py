import json,sys
n=int(sys.argv[1]) if len(sys.argv)>1 else 2
for k,t,r in json.load(open('/tmp/nat.json'))[:n]:
    print('##',t[:200]); print({k:v for k,v in r.items() if k not in('files','stderr')})
    for f,s in r.get('files',{}).items(): print('--',f); print('\n'.join(f'{i+1} {l}' for i,l in enumerate(s.split('\n')[:30])))
    print(r.get('stderr','')[:500])

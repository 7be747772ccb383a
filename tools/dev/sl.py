st,dn=set(),{}
for l in open('/tmp/sl'):
    p=l.split()
    if p[0]=='start': st.add(' '.join(p[1:]))
    else: dn[' '.join(p[1:-2])]=(float(p[-2]),int(p[-1]))
print(len(dn)); print('running',[x for x in st if x not in dn]); print(sorted(((v,k[:90]) for k,v in dn.items()),reverse=True)[:8])

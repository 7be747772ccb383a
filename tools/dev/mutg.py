import sys, os, re, random, glob, json, subprocess
os.environ['VERIF_REPO']='/tmp/wt3'; os.environ['VERIF_BUILD']='/tmp/vb3'
sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif')
import build
from vc import safecheck as SC
seed=int(sys.argv[1]); r=random.Random(seed)
subprocess.check_call(['git','-C','/tmp/wt3','checkout','-q','--','.'])
def cands(s):
    out=[]
    # whole guard
    for m in re.finditer(r'\n[ \t]*if \(([^\n{}]*)\) \{\n([ \t]*(?://[^\n]*\n[ \t]*)*)(return[^;\n]*|continue|break);\n[ \t]*\}(?=\n)',s):
        c=m.group(1)
        if re.search(r'(^|\|\| )!\w+(\.isNull|->|\b)|isNull|size\(\)|empty\(\)|getNum|hasDefinition',c):
            out.append((m.start(),m.end(),'','guard '+c))
            parts=re.split(r' \|\| ',c)
            if len(parts)>1 and c.count('(')==c.count(')'):
                for i,p in enumerate(parts):
                    if p.count('(')==p.count(')') and (re.match(r'!\w+$',p) or re.search(r'isNull|size\(\)|getNum|hasDefinition',p)):
                        a=m.start(1); out.append((m.start(1),m.end(1),' || '.join(parts[:i]+parts[i+1:]),'disjunct '+p+' of '+c))
    for m in re.finditer(r'(?<=[( ])(\w+) && (?=[^\n]*\b\1\b(?:->|\)))',s): out.append((m.start(),m.end(),'','conj '+m.group(0)+s[m.end():m.end()+40]))
    for m in re.finditer(r'(?<=[=(,]) ?(\w+) \? (\1->[^:;\n?]*) : [^;,\n)]*',s): out.append((m.start(),m.end(),' '+m.group(2),'tern '+m.group(0)))
    for m in re.finditer(r'dyn_cast_or_null<',s): out.append((m.start(),m.end(),'dyn_cast<','or_null '+s[m.end():m.end()+50].split('\n')[0]))
    return out
fs=[f for f in glob.glob('/tmp/wt3/src/**/*.cpp',recursive=True)]+['/tmp/wt3/src/clazy_stl.h','/tmp/wt3/src/TypeUtils.h','/tmp/wt3/src/QtUtils.h']
lib={'Utils.cpp','QtUtils.cpp','TypeUtils.cpp','ContextUtils.cpp','TemplateUtils.cpp','FunctionUtils.cpp','HierarchyUtils.cpp','StringUtils.cpp','LoopUtils.cpp','MacroUtils.cpp','StmtBodyRange.cpp'}
did={}
for f in sorted(fs):
    if not os.path.exists(f): continue
    if 'Standalone' in f or 'Tidy' in f: continue
    s=open(f).read(); c=cands(s)
    if not c: continue
    a,b,t,why=r.choice(c)
    open(f,'w').write(s[:a]+t+s[b:]); did[os.path.relpath(f,'/tmp/wt3')]=(why,s[:a].count('\n')+2)
# drop those which do not compile
while True:
    try: build.dumps(SC.srcs()); break
    except build.BuildError as e:
        m=re.findall(r'/tmp/wt3/(src/[^:\s]*):\d+:\d+: error',str(e)) or re.findall(r'/tmp/wt3/(src/\S*?\.cpp)',str(e))
        if not m: print(str(e)[-500:]); sys.exit()
        for x in set(m):
            subprocess.check_call(['git','-C','/tmp/wt3','checkout','-q','--',x]); did.pop(x,None)
res,t=SC.infer()
nf=SC.new_failures(res)
# attribution: obligations mentioning the file
hit={}
for f,l,os_ in nf: hit.setdefault(f,[]).append(l)
n=0
for f,(why,ln) in sorted(did.items()):
    h=hit.get(f); n+=bool(h)
    print('CAUGHT' if h else 'missed',f+f':{ln}',why,h or '')
print('elsewhere',{f:l for f,l in hit.items() if f not in did})
print(n,'of',len(did),t)
json.dump(did,open(f'/tmp/mutg{seed}.json','w'))

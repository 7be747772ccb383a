import sys, os, re, random, glob, json, subprocess
os.environ['VERIF_REPO']='/tmp/wt3'; os.environ['VERIF_BUILD']='/tmp/vb3'
sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif')
import build
from vc import safecheck as SC
mode=sys.argv[1]; seed=int(sys.argv[2]); r=random.Random(seed); prob=float(sys.argv[3]) if len(sys.argv)>3 else .5
subprocess.check_call(['git','-C','/tmp/wt3','checkout','-q','--','.']); subprocess.check_call(['git','-C','/tmp/wt3','pull','-q','/repo','HEAD'])
N=0
def sub(m):
    global N
    ind,c=m.group(1),m.group(2)
    if r.random()>prob or ';' in c or re.match(r'(const )?(auto|clang::|[A-Z]\w+) [*&]?\w+ =',c) or ' = ' in c or c.count('(')!=c.count(')'): return m.group(0)
    N+=1
    if mode=='bool': return f'\n{ind}const bool c{N}_ = {c};\n{ind}if (c{N}_) {{'
    if mode=='lambda': return f'\n{ind}const auto c{N}_ = [&]() -> bool {{ return {c}; }};\n{ind}if (c{N}_()) {{'
    if mode=='demorgan':
        p=re.split(r' \|\| ',c)
        if len(p)>1 and '&&' not in c and all(x.count('(')==x.count(')') for x in p): return f'\n{ind}if (!('+' && '.join(f'!({x})' for x in p)+')) {'
        return m.group(0)
    if mode=='split':
        p=re.split(r' \|\| ',c)
        t=m.string[m.end():]; b=re.match(r'\s*(return[^;\n]*;|continue;|break;)\s*\}',t)
        if len(p)>1 and '&&' not in c and all(x.count('(')==x.count(')') for x in p) and b:
            return ''.join(f'\n{ind}if ({x}) {{ {b.group(1)} }}' for x in p[:-1])+f'\n{ind}if ({p[-1]}) {{'
        return m.group(0)
    if mode=='local': return m.group(0)
did=[]
for f in sorted(glob.glob('/tmp/wt3/src/**/*.cpp',recursive=True)):
    s=open(f).read()
    t=re.sub(r'\n([ \t]+)if \(([^\n{}]*)\) \{(?=\n)',sub,s) if mode in('bool','lambda','demorgan','split') else s
    if mode=='wrap':
        def wp(m):
            global N
            if r.random()>prob: return m.group(0)
            N+=1
            return m.group(1)+'\n{\n    const auto impl_ = [&]() {\n'+m.group(2)+'\n    };\n    impl_();\n}\n'
        t=re.sub(r'(\nvoid [\w:]+\([^{}()]*\))\n\{\n(.*?)\n\}\n',wp,s,flags=re.S)
    if mode=='iter':
        def it(m):
            global N
            if r.random()>prob: return m.group(0)
            N+=1
            ind,v,e=m.groups()
            return f'\n{ind}auto &&rng{N}_ = {e};\n{ind}for (auto it{N}_ = rng{N}_.begin(), end{N}_ = rng{N}_.end(); it{N}_ != end{N}_; ++it{N}_) {{\n{ind}    {v} = *it{N}_;'
        t=re.sub(r'\n([ \t]+)for \(((?:const )?[\w:]+ [*&]*\w+) : ([^\n{}]*)\) \{(?=\n)',it,s)
    if mode=='early':   # if (c) { return; } REST -> if (!(c)) { REST }   (the last guard of a void function)
        def er(m):
            global N
            if r.random()>prob or 'return' in m.group(4) and False: return m.group(0)
            if m.group(2).count('(')!=m.group(2).count(')') or ' = ' in m.group(2): return m.group(0)
            N+=1
            return m.group(1)+f'    if (!({m.group(2)})) {{\n{m.group(4)}\n    }}\n}}\n'
        t=re.sub(r'(\nvoid [\w:]+\([^{}()]*\)\n\{\n(?:(?!\n\}).)*?)    if \(([^\n{}]*)\) \{\n        (return);\n    \}\n((?:(?!\n\}\n).)*)\n\}\n',er,s,flags=re.S)
    if mode=='idx':   # range-for over a container -> index loop
        def ix(m):
            global N
            if r.random()>prob: return m.group(0)
            N+=1
            ind,v,e=m.groups()
            return f'\n{ind}for (size_t i{N}_ = 0; i{N}_ < {e}.size(); ++i{N}_) {{\n{ind}    {v} = {e}[i{N}_];'
        t=re.sub(r'\n([ \t]+)for \(((?:const )?[\w:]+ [*&]*\w+) : ([\w.>-]*)\) \{(?=\n)',ix,s)
    if mode=='loop':   # range-for over a local container -> index loop
        def lp(m):
            if r.random()>prob: return m.group(0)
            return m.group(0)
    if t!=s: open(f,'w').write(t); did.append(os.path.relpath(f,'/tmp/wt3'))
print(N,'edits',len(did))
while True:
    try: build.dumps(SC.srcs()); break
    except build.BuildError as e:
        m=re.findall(r'/tmp/wt3/(src/[^:\s]*):\d+:\d+: error',str(e)) or re.findall(r'/tmp/wt3/(src/\S*?\.cpp)',str(e))
        if not m: print(str(e)[-500:]); sys.exit()
        for x in set(m): subprocess.check_call(['git','-C','/tmp/wt3','checkout','-q','--',x]); print('no',x)
res,t=SC.infer()
nf=SC.new_failures(res)
for f,l,o in nf: print(f,l,[x['function']+' '+x['at'] for x in o][:4])
print(len(nf),t,sum(bool(r['err']) for r in res.values()),[ (r['n'],r['err']) for r in res.values() if r['err']][:5])

"""Drive the clazy-standalone built from /repo's working tree over many generated files."""
import os, re, subprocess, concurrent.futures as cf
import build
DIAG = re.compile(r'^(?P<file>[^\n:]+):(?P<line>\d+):(?P<col>\d+): (?P<sev>warning|error|fatal error|note|remark): (?P<msg>.*?)(?: \[(?P<tag>-W[^\]]*)\])?$')
class D:
    __slots__ = ('file', 'line', 'col', 'sev', 'msg', 'tag')
    def __init__(self, m): self.file = m['file']; self.line = int(m['line']); self.col = int(m['col']); self.sev = m['sev']; self.msg = m['msg']; self.tag = m['tag'] or ''
    @property
    def check(self):
        m = re.search(r'-Wclazy-([^,\]]*)', self.tag)
        return m.group(1) if m else None
    def __repr__(self): return f'{os.path.basename(self.file)}:{self.line}:{self.col} {self.sev} {self.msg} {self.tag}'
def parse(out): return [D(m) for m in map(DIAG.match, out.split('\n')) if m]
def envof(env):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CLAZY')}
    e.update(env or {}); return e
def tool(args, env=None, cwd=None, timeout=120, input=None):
    return subprocess.run(args, capture_output=True, text=True, errors='surrogateescape', env=envof(env), cwd=cwd, timeout=timeout, input=input)
def batch(d, files, opts, comp=(), env=None, per=48, deadline=None):
    """files: {name: text} written into directory d; returns ({name: [D]}, [names that crashed the tool])"""
    st = build.standalone()
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='') as f: f.write(t)
    main = [n for n in files if n.endswith('.cpp')]
    # no more than needed per process, so that every core has something to do
    per = max(1, min(per, -(-len(main) // build.JOBS)))
    res = {n: [] for n in main}; crashed = []
    def go(names):
        try: p = tool([st] + list(opts) + [os.path.join(d, n) for n in names] + ['--', '-w'] + list(comp), env=env, cwd=d)
        except subprocess.TimeoutExpired: return names, None
        return names, p
    def fold(names, p):
        if p is None or p.returncode < 0 or p.returncode >= 128:
            if len(names) == 1: crashed.append(names[0]); return
            for n in names: fold(*go([n]))
            return
        cur = None
        for x in parse(p.stderr + '\n' + p.stdout):
            n = os.path.relpath(x.file, d) if x.file.startswith(d) else x.file
            x.file = n
            res.setdefault(n, []).append(x)
    chunks = [main[i:i + per] for i in range(0, len(main), per)]
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for names, p in ex.map(go, chunks): fold(names, p)
    return res, crashed

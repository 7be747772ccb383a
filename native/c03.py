"""C03: clazy-standalone on generated trees with random header/ignore/line filters and -only-qt, against an independent reading of the options."""
import os, re, json, shutil, collections, concurrent.futures as cf
from native import run as R
import build
CH = ['rule-of-three', 'copyable-polymorphic', 'function-args-by-ref']
def code(k, n): return [f'struct {n} {{ {n}(const {n} &); ~{n}(); int x; }};', f'struct {n} {{ virtual ~{n}(); int q; }};', f'struct {n} {{ int a[100]; }}; inline void f_{n}({n} b) {{ (void)b; }}'][k]
NAME = re.compile(r'\bX\d+k\d\b')
HDR = ['inc/widget.h', '3rdparty/lib/foo.h', 'my_header.h', 'build/moc_x.h', 'inc/a.b.h', 'Inc/W.hpp']
MAINS = ['main.cpp', 'src/app.cpp', '3rdparty/t.cpp', 'src/xmain.cpp']
RX = ['inc/', '.*widget.*', r'\.cpp$', '(inc|build)/.*\\.h$', r'foo\.h$', '3rdparty', 'moc_[a-z]\\.h', '^.*$', '/$', '^inc', 'widget.h', 'widget\\.hpp', '(src|3rdparty)/', '[Ii]nc/[^/]*\\.h', 'x+', '^$', 'my_header|W\\.hpp', '/src/app.cpp$', 'ab*c|lib/']
class Tree:
    def __init__(self, r, d): self.r, self.d, self.n, self.files, self.trig = r, d, 0, {}, {}
    def make(self, rel, includes):
        """one file; returns triggers [(check, name, presumed file, presumed line, macro place or None)]"""
        r = self.r; L = []; T = []
        pf, off = None, 0
        def here(): return len(L) + 1 + off
        for i in includes: L.append(f'#include "{i}"')
        for _ in range(r.choice([3, 6, 12])):
            x = r.random()
            if x < .08:
                v = r.choice([r.randint(1, 40), 3]); f = r.choice([None, 'gen/other.h', 'widget.h', 'main.cpp'])
                L.append(f'#line {v}' + (f' "{f}"' if f else '')); off = v - len(L) - 1
                if f: pf = f
                continue
            if x < .3: L.append(r.choice(['', 'int %s();' % ('q%d' % self.new(9)[0]), '// x'])); continue
            p = pf
            if x < .4:   # macros: governed by, and reported once per, the place of the expansion
                a = self.new(0); b = self.new(0)
                if r.random() < .5:
                    T.append((0, a[1], p, here(), ('m', rel, here(), 1))); T.append((0, b[1], p, here(), ('m', rel, here(), 1))); L.append(f'MK2({a[1]}, {b[1]})')
                elif r.random() < .5:
                    c = f'MK({a[1]}) '
                    T.append((0, a[1], p, here(), ('m', rel, here(), 1))); T.append((0, b[1], p, here(), ('m', rel, here(), len(c) + 1))); L.append(f'{c}MK({b[1]})')
                else:
                    k = r.randrange(3); a = self.new(k); b = self.new(r.randrange(3))
                    T.append((k, a[1], p, here(), ('m', rel, here(), 1))); T.append((int(b[1][-1]), b[1], p, here(), ('m', rel, here(), 1)))
                    L += ['WRAP(' + code(k, a[1]), code(int(b[1][-1]), b[1]) + ')']
                continue
            ks = [r.randrange(3) for _ in range(r.choice([1, 1, 2]))]; line = ''
            for k in ks:
                nm = self.new(k); T.append((k, nm[1], p, here(), None)); line += code(k, nm[1]) + ' '
            L.append(line.rstrip())
        self.files[rel] = '\n'.join(L) + '\n'
        return T
    def new(self, k): self.n += 1; return self.n, f'X{self.n}k{k}'
def rnd_filter(r, d, names):
    def rng():
        a = r.choice([0, 1, 2, 3, 5, 8, 30]); b = a + r.choice([0, 0, 1, 3, 10])
        return r.choice([[a, b]] * 8 + [[b + 1, a], [-5, b], [a, 4294967296 + b], [4294967296 + a, 4294967296 + b + 1], [a], [a, b, 1], ['1', b], a, [a + .5, b]])
    def ent():
        n = r.choice(names); n = r.choice([n, os.path.basename(n), os.path.join(d, n), n[2:], 'other.h', 'x' + n, '', n + 'x', n.upper(), '/' + os.path.basename(n)])
        e = {'name': n}
        if r.random() < .7: e['lines'] = [rng() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return r.choice([e] * 12 + [{'lines': [[1, 2]]}, 3, {'name': 4}, {'nam': n}])
    x = r.random()
    if x < .04: return r.choice(['[', '{"name":"main.cpp"}', '3', 'null', '[{"name":"main.cpp",}]'])
    return json.dumps([ent() for _ in range(r.choice([1, 1, 2, 3, 0]))])
def read_filter(s):
    try: j = json.loads(s)
    except ValueError: return []
    if not isinstance(j, list): return []
    out = []
    for e in j:
        if not isinstance(e, dict) or not isinstance(e.get('name'), str): continue
        rs = []
        for g in e.get('lines') or []:
            if isinstance(g, list) and len(g) == 2 and all(isinstance(v, int) for v in g): rs.append(g)
        out.append((e['name'], rs))
    return out
def scenario(r, d):
    os.makedirs(d)
    t = Tree(r, d)
    hs = r.sample(HDR, r.choice([1, 2, 3]))
    entry = {}          # header -> (entry name, triggers)
    for h in hs:
        entry[h] = (os.path.join(d, h), t.make(h, []))
    mains = r.sample(MAINS, r.choice([1, 1, 2, 3]))
    main_tr = {}; spelled = {}
    for m in mains:
        inc = [h for h in hs if r.random() < .8]
        spell = [(h, h if r.random() < .5 or '/' in m else './' + h) for h in inc]
        main_tr[m] = t.make(m, [x[1] for x in spell]); spelled[m] = spell
    opts, env = [], {}
    hf = r.choice(RX) if r.random() < .45 else ''
    ig = r.choice(RX) if r.random() < .4 else ''
    lf = rnd_filter(r, d, mains + hs) if r.random() < .5 else ''
    def setf(opt, var, v):
        if not v: return
        if r.random() < .3: env[var] = v
        else:
            opts.append(f'-{opt}={v}')
            if r.random() < .2: env[var] = r.choice(RX)
    setf('header-filter', 'CLAZY_HEADER_FILTER', hf); setf('ignore-dirs', 'CLAZY_IGNORE_DIRS', ig)
    if lf: opts.append('-line-filter=' + lf)
    oq = r.random() < .3
    if oq: opts.append('-only-qt')
    rs = read_filter(lf) if lf else []
    db, exp = [], collections.Counter()
    for m in mains:
        fl = []
        if r.random() < (.8 if oq else .3):
            fl = r.choice([['-DQT_CORE_LIB'], ['-DQT_CORE_LIB=1'], ['-DQT_CORE_LIB', '-UQT_CORE_LIB'], ['-UQT_CORE_LIB', '-DQT_CORE_LIB'], ['-DQT_CORE'], ['-DQT_CORE_LIBS'], ['-DQT_GUI_LIB'], ['-DX', '-DQT_CORE_LIB', '-DY=2'], ['-DX=QT_CORE_LIB'], ['-UQT_CORE_LIB']])
        db.append({'directory': d, 'file': os.path.join(d, m), 'arguments': ['c++', '-w', '-I' + d, '-DMK(n)=struct n { n(const n &); ~n(); int x; };', '-DMK2(a,b)=MK(a) MK(b)', '-DWRAP(...)=__VA_ARGS__', *fl, '-c', os.path.join(d, m)]})
        qt = False
        for f in fl:
            if f[2:].split('=')[0] == 'QT_CORE_LIB': qt = f[1] == 'D'
        if oq and not qt: continue
        seen = set()
        units = []
        for h, sp in spelled[m]:
            # where the include is found decides the name of the file
            base = os.path.dirname(os.path.join(d, m)); name = os.path.join(base, sp)
            if not os.path.exists(name) and h not in t.files or base != d: name = os.path.join(d, sp)
            units.append((name, h, False, entry[h][1]))
        units.append((os.path.join(d, m), m, True, main_tr[m]))
        for name, rel, is_main, tr in units:
            for k, nm, pf, pl, place in tr:
                if ig and re.search(ig, name): continue
                if hf and not is_main and not re.search(hf, name): continue
                if rs:
                    f = pf or name
                    if not any(f.endswith(n) and (not g or any(a <= pl <= b for a, b in g)) for n, g in rs): continue
                if place:
                    key = (k, pf or name, pl, place[3])
                    if key in seen: continue
                    seen.add(key)
                exp[(CH[k], nm)] += 1
    t.files['compile_commands.json'] = json.dumps(db)
    for n, s in t.files.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f: f.write(s)
    args = ['-p', d, '-checks=' + ','.join(CH), *opts, *[os.path.join(d, m) for m in mains]]
    return t.files, args, env, exp
def run(ctx):
    st = build.standalone()
    ctx.rule = ('random trees of sources and headers (nested directories, #line, macros, several translation units per process through a compilation database) and random '
                '-header-filter/-ignore-dirs/-line-filter/-only-qt options and environment; the multiset of reported (check, class) is compared with an independent reading; non-trivial = at least one warning reported and one filtered out')
    n = 0; r = ctx.rng
    lim = 20000 if ctx.tier == 'thorough' else 4000 if ctx.deep else 1200
    def one(a):
        d, sc = a
        files, args, env, exp = sc
        try: p = R.tool([st] + args, env=env, cwd=d)
        except Exception as e: return a, None, str(e)
        return a, p, ''
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
            todo = []
            for _ in range(64):
                d = os.path.join(ctx.scratch, f's{n}'); n += 1
                todo.append((d, scenario(r, d)))
            for (d, (files, args, env, exp)), p, err in ex.map(one, todo):
                replay = {'files': files, 'argv': args, 'env': env}
                if p is None or p.returncode < 0 or p.returncode >= 128:
                    ctx.fail('crash', f'clazy-standalone died ({err or p.returncode})', replay); continue
                got = collections.Counter()
                for x in R.parse(p.stderr):
                    if x.check in CH:
                        m = NAME.search(x.msg); got[(x.check, m.group(0) if m else x.msg)] += 1
                total = sum(len(re.findall(r'X\d+k\d', s)) for s in files.values())
                ctx.evals += 1
                if exp and len(exp) < total: ctx.evals -= 1; ctx.case((sorted(files.items()), args), {'argv': args[3:], 'env': env, 'reported': len(exp)})
                if got != exp:
                    a, b = exp - got, got - exp
                    w = sorted(b)[0] if b else sorted(a)[0]
                    ctx.fail('filter', f'{w[0]} of {w[1]}: ' + ('reported although filtered out (or too often)' if b else 'not reported although no filter excludes it') + f' with {args[2:]} {env}',
                             {**replay, 'expected': sorted(map(str, exp.items())), 'reported': sorted(map(str, got.items())), 'stderr': p.stderr[-2000:]})
                shutil.rmtree(d, ignore_errors=True)

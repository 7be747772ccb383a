"""C07: the exported YAML file against what the same run prints (with -fdiagnostics-parseable-fixits): diagnostics, names, places, replacements, notes."""
import os, re, json, shutil, concurrent.futures as cf
from native import run as R
import build
CH = ['function-args-by-ref', 'function-args-by-value', 'copyable-polymorphic', 'use-chrono-in-qtimer', 'range-loop-reference', 'sanitize-inline-keyword', 'rule-of-three', 'global-const-char-pointer', 'virtual-call-ctor', 'returning-void-expression', 'modernize-list-initialization', 'qt-keyword-emit']
COMMON = '''#pragma once
struct Big_ { int a[100]; }; struct Sm_ { int x; };
class QTimer { public: void start(int); static void singleShot(int, void (*)()); };
struct Bigs_ { Big_ *begin() const; Big_ *end() const; }; void cb_(); void sink_(int); int printf(const char *, ...) __attribute__((format(printf, 1, 2)));
#define MBIG_ Big_ mb
#define MCALL_(x) x
#define MTIMER_(t) (t).start(5 * 1000)
#define MSTRUCT_ struct MM_
#define MLIT_ 250
#define MWRAP_(...) __VA_ARGS__
#define MSECOND_(x, ...) (void)x; __VA_ARGS__
#define MTWICE_(x) MWRAP_(x)
'''
FIX = re.compile(r'^fix-it:"((?:[^"\\]|\\.)*)":\{(\d+):(\d+)-(\d+):(\d+)\}:"((?:[^"\\]|\\.)*)"$')
def unesc(s):
    b = s.encode('utf-8', 'surrogateescape'); out = bytearray(); i = 0
    while i < len(b):
        if b[i] == 92:
            c = chr(b[i + 1])
            if c in '01234567': out.append(int(b[i + 1:i + 4], 8)); i += 4; continue
            if c == 'x': out.append(int(b[i + 2:i + 4], 16)); i += 4; continue
            out.append({'n': 10, 't': 9, '\\': 92, '"': 34, 'r': 13}.get(c, ord(c))); i += 2; continue
        out.append(b[i]); i += 1
    return bytes(out).decode('utf-8', 'surrogateescape')
def printed(text, offset):
    """[(sev, file, offset, msg, name, [fix], [note])] in the order of printing"""
    L = []; cur = None
    for l in text.split('\n'):
        m = R.DIAG.match(l)
        if m:
            d = R.D(m)
            if d.sev == 'note':
                if d.msg.startswith('expanded from macro'): cur = None if cur is None else cur; L and L[-1].__setitem__('macro', True); last = None; continue
                n = {'sev': 'note', 'file': d.file, 'off': offset(d.file, d.line, d.col), 'msg': d.msg, 'fixes': []}
                if L: L[-1]['notes'].append(n)
                last = n; continue
            tag = d.tag[2:].split(',') if d.tag else []
            name = next((t[2:] if t.startswith('-W') else t for t in reversed(tag)), '')
            name = name[2:] if name.startswith('-W') else name
            L.append({'sev': d.sev, 'file': d.file, 'off': offset(d.file, d.line, d.col), 'msg': d.msg, 'name': name, 'fixes': [], 'notes': [], 'macro': False, 'raw': l})
            last = L[-1]; continue
        m = FIX.match(l)
        if m and L and last is not None:
            f = unesc(m[1]); a, b = offset(f, int(m[2]), int(m[3])), offset(f, int(m[4]), int(m[5]))
            last['fixes'].append((os.path.basename(f), a, b - a, unesc(m[6])))
    return L
class Gen:
    def __init__(self, r): self.r = r; self.k = 0
    def nm(self): self.k += 1; return f'n{self.k}_{self.tag}'
    def lit(self): return self.r.choice(['1000', "1'000", "10'000", '60 * 1000', '0x3E8', '250', '5 * 60 * 1000', "1'500", 'MLIT_', "24 * 60 * 60 * 1'000", "1'0'0"])
    def item(self):
        r = self.r; a = self.nm(); inl = 'inline ' if self.tag != 'M' else ''
        pad = r.choice(['', '', '/* ä€ */ ', '\t', 'auto s%s = u8"é \\" %%"; ' % a if self.tag == 'M' else '', 'auto r%s = R"x(" // )x"; ' % a if self.tag == 'M' else '', "auto d%s = 1'0; " % a if self.tag == 'M' else ''])
        k = r.randrange(17)
        if k == 0: s = f'{inl}void {a}({r.choice(["", "int q, "])}Big_ b{r.choice(["", ", Big_ c"])}) {{ (void)b; }}'
        elif k == 1: s = f'{inl}void {a}(const Sm_ &b) {{ (void)b; }}'
        elif k == 2: s = f'{inl}void {a}() {{ QTimer t; t.start({self.lit()}); }}'
        elif k == 3: s = f'{inl}void {a}() {{ QTimer::singleShot({self.lit()}, cb_); QTimer t; MTIMER_(t); }}'
        elif k == 4: s = f'{inl}void {a}(const Bigs_ &l) {{ for ({r.choice(["const ", ""])}Big_ b : l) {{ sink_(b.a[0]); }} }}'
        elif k == 5: s = f'struct {a} {{ virtual ~{a}(); int q; }};'
        elif k == 6: s = f'struct {a} {{ {a}(const {a} &); ~{a}(); int x; }};'
        elif k == 7: s = f'{inl}void {a}(MBIG_) {{ (void)mb; }}'
        elif k == 8: s = f'{inl}const char *{a} = "x";'
        elif k == 9: s = f'{inl}int {a}(int v) {{ int w; if (v = 1) return v; return 0; }}'
        elif k == 10: s = f'{inl}void {a}() {{ printf("%d{r.choice(["", " ä", "%%"])}", 1l); }}'
        elif k == 11: s = f'{inl}void {a}(Big_ b);\n{inl}void {a}({r.choice(["const ", ""])}Big_ c) {{ (void)c; }}'
        elif k == 12: s = f'struct {a} {{ {r.choice(["inline ", ""])}int f() {{ return 1; }} {r.choice(["inline", ""])} Sm_ g(const Sm_ &s); }};\ninline Sm_ {a}::g(const Sm_ &s) {{ return s; }}'
        elif k == 13: s = f'template<typename T{a}> void {a}(T{a} t, Big_ b) {{ (void)t; (void)b; }}' + (f'\ninline void u{a}() {{ {a}(1, Big_()); }}' if r.random() < .5 else '')
        elif k == 14: s = f'{inl}auto {a} = [](Big_ b) {{ return MCALL_(b.a[0]); }};'
        elif k == 15: s = f'struct {a} {{ {a}() {{ v(); }} virtual void v() = 0; }};' + (';' if r.random() < .5 else '')
        else: s = f'{inl}void {a}() {{ int u; }} {inl}void w{a}() {{ return cb_(); }}'
        if r.random() < .12 and '#' not in s: s = r.choice(['MWRAP_(%s)', 'MWRAP_(MWRAP_( %s))', 'MWRAP_(/* a */ %s)']) % s
        elif r.random() < .2: s = s.replace('{ return cb_(); }', r.choice(['{ MSECOND_(0, return cb_()); }', '{ MTWICE_(return cb_()); }', '{ MWRAP_(return MCALL_(cb_())); }']))
        return pad + s
    def file(self, tag, n):
        self.tag = tag
        return '\n'.join(self.item() for _ in range(n)) + '\n'
def overlapping(fx):
    fx = sorted(set(fx))
    return any(a[0] == b[0] and (a[1] + a[2] >= b[1]) for a, b in zip(fx, fx[1:]))
def norm(fx, d):
    # the printed removal of a token takes the blank after it along
    out = set()
    for f, o, l, t in fx:
        if not t:
            bs = open(os.path.join(d, f), 'rb').read()[o:o + l]; l -= len(bs) - len(bs.rstrip()); o += len(bs) - len(bs.lstrip()); l -= len(bs) - len(bs.lstrip())
        out.add((f, o, l, t))
    return sorted(out)
def compare(P, Y, d, main=None):
    """first difference"""
    b = lambda f: os.path.basename(f)
    exp = [p for p in P if p['sev'] == 'warning' or (p['sev'] == 'error' and p['name'].startswith('clazy-'))]
    D = Y.get('Diagnostics') or []
    if D and main and Y.get('MainSourceFile') and b(Y['MainSourceFile']) != main: return f'MainSourceFile is {Y["MainSourceFile"]}, the last translation unit is {main}'
    for i in range(max(len(exp), len(D))):
        if i >= len(D): return f'{len(exp)} diagnostics are printed, {len(D)} are exported; missing: {exp[i]["raw"]}'
        if i >= len(exp): return f'{len(D)} diagnostics are exported, {len(exp)} are printed; not printed: {D[i]}'
        p, y = exp[i], D[i]; M = y['DiagnosticMessage']
        if y['DiagnosticName'] != p['name']: return f'name {y["DiagnosticName"]!r} of {p["raw"]}'
        if M['Message'] != p['msg']: return f'message {M["Message"]!r} of {p["raw"]}'
        if b(M['FilePath']) != b(p['file']) or M['FileOffset'] != p['off']: return f'place {M["FilePath"]} {M["FileOffset"]} of {p["raw"]} (offset {p["off"]})'
        if y.get('Level', 'Warning') != {'warning': 'Warning', 'error': 'Error'}[p['sev']]: return f'level {y.get("Level")} of {p["raw"]}'
        fx = [(b(f['FilePath']), f['Offset'], f['Length'], f['ReplacementText']) for f in M.get('Replacements') or []]
        if not p['macro'] and not overlapping(p['fixes']) and (len(fx) != len(set(fx)) or norm(fx, d) != norm(p['fixes'], d)): return f'replacements {sorted(fx)} instead of {sorted(set(p["fixes"]))} of {p["raw"]}'
        ns = [(n['Message'], b(n.get('FilePath', '')), n['FileOffset']) for n in y.get('Notes') or []]
        pn = [(n['msg'], b(n['file']), n['off']) for n in p['notes']]
        if ns != pn: return f'notes {ns} instead of {pn} of {p["raw"]}'
    return None
def run(ctx):
    import yaml
    r = ctx.rng; st = build.standalone()
    ctx.rule = ('random sources (main files, user headers) with up to twelve warnings of clazy and of the compiler, with and without fix-its and notes, in macros, next to UTF-8 text, raw strings and digit separators; one or several translation units, missing and repeated ones, '
                'promoted checks, -Werror; the exported file is compared, diagnostic by diagnostic, with the printed output and its parseable fix-its; non-trivial = at least three diagnostics with a fix-it or a note')
    n = 0; lim = 8000 if ctx.tier == 'thorough' else 3000 if ctx.deep else 1600
    def one(a):
        d, args, env = a
        try: return a, R.tool([st] + args, cwd=d, env=env)
        except Exception: return a, None
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
            todo = []
            for _ in range(64):
                d = os.path.join(ctx.scratch, f's{n}'); n += 1
                g = Gen(r); files = {'common_.h': COMMON}
                hs = [h for h in ('h1.h', 'h2.h') if r.random() < .4]
                for h in hs: files[h] = '#pragma once\n#include "common_.h"\n' + g.file(h[:2].upper(), r.choice([1, 2, 4]))
                mains = [f'm{i}.cpp' for i in range(r.choice([1, 1, 1, 2, 3]))]
                for m in mains:
                    files[m] = '#include "common_.h"\n' + ''.join(f'#include "{h}"\n' for h in hs if r.random() < .8) + (g.file('M', r.choice([1, 3, 6])) if r.random() < .85 else 'int nothing_' + m[1] + ';\n')
                    if r.random() < .08: files[m] += r.choice(['int e_ = undeclared_;\n', 'void two_(int); void two_(int) { two_("x"); }\n'])
                os.makedirs(d)
                for f, t in files.items():
                    with open(os.path.join(d, f), 'w') as fh: fh.write(t)
                en = CH if r.random() < .4 else sorted(r.sample(CH, r.choice([1, 3, 6])))
                std = r.choice(['-std=c++17', '-std=c++17', '-std=c++20', '-std=c++14'])
                comp = [std, '-fdiagnostics-parseable-fixits', '-ferror-limit=0'] + r.choice([['-w'], [], ['-Wall', '-Wextra'], ['-Wall', '-Wextra', '-Wextra-semi']])
                w = r.random(); env = {}
                if w < .15: env['CLAZY_CHECKS_AS_ERRORS'] = ','.join(r.sample(CH, r.choice([1, 3, 12])))
                elif w < .22: comp = [c for c in comp if not c.startswith('-W')] + ['-Werror']; env.update(r.choice([{}, {'CLAZY_NO_WERROR': '1'}]))
                base = ['-checks=' + ','.join(en), '-export-fixes=' + os.path.join(d, 'out.yaml')]
                tus = [os.path.join(d, m) for m in mains]
                if r.random() < .08: tus.insert(r.randrange(len(tus) + 1), os.path.join(d, 'missing_.cpp'))
                if r.random() < .3:
                    cc = [{'directory': d, 'file': t, 'arguments': ['clang++'] + comp + ['-c', t]} for t in tus]
                    if r.random() < .4: cc.append(dict(cc[r.randrange(len(cc))]))
                    json.dump(cc, open(os.path.join(d, 'compile_commands.json'), 'w')); args = base + ['-p', d] + tus
                else: args = base + tus + ['--'] + comp
                if r.random() < .25:
                    with open(os.path.join(d, 'out.yaml'), 'w') as fh: fh.write('stale\n')
                    stale = True
                else: stale = False
                todo.append((d, args, env))
            for (d, args, env), p in ex.map(one, todo):
                files = {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if f.endswith(('.cpp', '.h'))}
                rep = {'files': files, 'argv': args, 'env': env}
                if p is None or p.returncode < 0 or p.returncode >= 128: ctx.fail('crash', 'clazy-standalone died', rep); continue
                starts = {}
                def offset(f, l, c):
                    f = os.path.join(d, f)
                    if f not in starts:
                        try: bs = open(f, 'rb').read()
                        except OSError: return -1
                        starts[f] = [0] + [i + 1 for i, x in enumerate(bs) if x == 10]
                    return starts[f][l - 1] + c - 1 if 0 < l <= len(starts[f]) else -1
                P = printed(p.stderr, offset)
                y = os.path.join(d, 'out.yaml'); txt = open(y, errors='surrogateescape').read() if os.path.exists(y) else ''
                try: Y = yaml.safe_load(txt) if txt and txt != 'stale\n' else {}
                except Exception as e: ctx.fail('yaml', f'the exported file is not valid YAML: {str(e)[:200]}', {**rep, 'yaml': txt[:4000]}); continue
                interesting = sum(1 for x in P if x['fixes'] or x['notes'])
                if interesting > 2: ctx.case(sorted(files.items()), {'argv': args[:1], 'diagnostics': len(P)})
                else: ctx.evals += 1
                main = next((b_ for b_ in reversed([os.path.basename(x) for x in args if x.endswith('.cpp')]) if b_ != 'missing_.cpp'), None) if '-p' not in args else None
                diff = compare(P, Y, d, main)
                if diff: ctx.fail('export', diff, {**rep, 'stderr': p.stderr[-4000:], 'yaml': txt[-6000:]})
                shutil.rmtree(d, ignore_errors=True)

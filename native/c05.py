"""C05: every enabled check sees every declaration and statement of user code, whatever else is enabled: triggers planted at random depths."""
import os, json, shutil, concurrent.futures as cf
from native import run as R
import build
CH = ['rule-of-three', 'copyable-polymorphic', 'returning-void-expression', 'function-args-by-ref', 'global-const-char-pointer', 'virtual-call-ctor', 'function-args-by-value']
SYSM = '#pragma once\n#define SRET_ return\n#define SSTRUCT_ struct\n#define SVOID_ void\n#define SBIG_ Big_\n#define SVCALL_ v()\n'
PRE = 'void g_(); struct Big_ { int a[100]; }; struct Sm_ { int x; };'
class Gen:
    def __init__(self, r): self.r = r; self.k = 0
    def nm(self): self.k += 1; return f'N{self.k}'
    def file(self, tag, depth, n):
        self.L = []; self.T = []; self.tag = tag
        for _ in range(n): self.item('ns', depth, False)
        return '\n'.join(self.L) + '\n', self.T
    def trig(self, ctx, dep):
        # the implicit members of classes of templates exist in instantiations only, calls there are not resolved
        r = self.r; a = self.tag + self.nm(); ks = [0] if dep else [0, 1, 5]
        if ctx in ('ns', 'cls', 'tcls'): ks += [2, 2, 3, 3, 6]
        if ctx == 'ns': ks += [4]
        k = r.choice(ks); l = len(self.L) + 1
        if k == 0: s = f'struct {a} {{ {a}(const {a} &); ~{a}(); int x; }};'
        elif k == 1: s = f'struct {a} {{ virtual ~{a}(); int q; }};'
        elif k == 2:
            b = 'return g_();'
            for _ in range(r.choice([0, 0, 1, 2, 3])): b = r.choice(['{ %s }', 'if (1) { %s }', 'if (0) {} else { %s }', 'for (;;) { %s }', 'while (1) %s', 'do { %s } while (0);', 'switch (1) { case 1: %s }', 'switch (1) { default: { %s } }', 'l: %s', 'try { %s } catch (...) { }', 'try { } catch (...) { %s }']) % b
            if b.count('l: ') > 1: b = 'return g_();'
            s = f'{"inline " if self.tag != "M" and ctx == "ns" else ""}void {a}() {{ {b} }}'
        elif k == 3: s = f'{"inline " if self.tag != "M" and ctx == "ns" else ""}void {a}(Big_ b) {{ (void)b; }}'
        elif k == 4: s = f'{"inline " if self.tag != "M" else ""}const char *{a} = "x";'
        elif k == 6: s = f'{"inline " if self.tag != "M" and ctx == "ns" else ""}void {a}(const Sm_ &b) {{ (void)b; }}'
        else: s = f'struct {a} {{ {a}() {{ v(); }} virtual void v() = 0; }};'
        self.T.append((l, CH[k]))
        if k == 5: self.T.append((l, 'poly?'))
        if r.random() < .12:
            # written with macros of a system header: still user code
            s = s.replace('return ', 'SRET_ ', 1).replace('struct ', 'SSTRUCT_ ', 1) if k in (0, 1, 2) else s.replace('v();', 'SVCALL_;', 1) if k == 5 else s.replace('(Big_ ', '(SBIG_ ') if k == 3 else s
        self.L.append(s)
    def item(self, ctx, depth, dep, body=False):
        r = self.r; a = self.tag + self.nm()
        if depth == 0 or r.random() < .45: return self.trig(ctx, dep)
        kinds = ['cls', 'cls']
        if ctx == 'ns': kinds += ['ns', 'ns', 'anon', 'ext', 'fn', 'fn', 'tcls', 'tfn', 'lam']
        elif ctx in ('cls', 'tcls'): kinds += ['fn', 'fn', 'sec'] + ([] if body else ['tcls', 'tfn'])
        else: kinds += ['blk', 'blk', 'lamb']
        k = r.choice(kinds); inl = 'inline ' if self.tag != 'M' and ctx == 'ns' else ''
        head = {'ns': f'namespace {a} {{', 'anon': f'namespace {a} {{ inline namespace v1 {{', 'ext': 'extern "C++" {', 'fn': f'{inl}void {a}() {{', 'cls': f'{r.choice(["struct", "class"])} {a} {{', 'tcls': f'template<typename T{a}> struct {a} {{',
                'tfn': f'template<typename T{a}> void {a}(T{a}) {{', 'sec': r.choice(['public:', 'private:', 'protected:']), 'blk': r.choice(['{', 'if (1) {', 'for (;;) {', 'while (0) {', 'do {', 'switch (1) { default: {']), 'lamb': f'auto {a} = [] {{', 'lam': f'{inl}auto {a} = [](int) {{'}[k]
        tail = {'anon': '}}', 'cls': '};', 'tcls': '};', 'sec': '', 'lamb': '};', 'lam': '};'}.get(k, '}')
        if k == 'blk': tail = {'do {': '} while (0);', 'switch (1) { default: {': '}}'}.get(head, '}')
        self.L.append(head)
        for _ in range(r.choice([1, 2, 3])): self.item({'ns': 'ns', 'anon': 'ns', 'ext': 'ns', 'cls': 'cls', 'tcls': 'cls', 'sec': ctx}.get(k, 'body'), depth - 1, dep or k in ('tcls', 'tfn'), body or k in ('fn', 'tfn', 'lam', 'lamb', 'blk'))
        self.L.append(tail)
def run(ctx):
    r = ctx.rng; st = build.standalone()
    J = {c['name']: c for c in json.load(open(os.path.join(build.REPO, 'checks.json')))['checks']}
    others = [c for c in J if c not in CH and c != 'clazy']
    ctx.rule = ('random sources with triggers nested up to six levels deep in namespaces, classes, templates, functions, blocks and lambdas of the main file, of headers and of system headers; random sets of enabled checks, -ignore-included-files, '
                '-visit-implicit-code; the set of (file, line, check) is compared with the planted triggers of the enabled checks; non-trivial = at least three triggers')
    n = 0; lim = 12000 if ctx.tier == 'thorough' else 3000 if ctx.deep else 2400
    def one(a):
        d, files, args, exp, poly, en, env = a
        try: return a, R.tool([st] + args, cwd=d, env=env), ''
        except Exception as e: return a, None, str(e)
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
            todo = []
            for _ in range(64):
                d = os.path.join(ctx.scratch, f's{n}'); n += 1
                g = Gen(r); dep = r.choice([1, 2, 3, 4, 6])
                files = {}; exp = set(); poly = set()
                en = sorted(r.sample(CH, r.choice([1, 1, 2, 3, len(CH)]))); extra = r.sample(others, r.choice([0, 0, 1, 3, 10, len(others)]))
                ign = r.random() < .4
                for nm, tag in [('main_.cpp', 'M'), ('user.h', 'H'), ('sys/s.h', 'S'), ('prag.h', 'P')]:
                    if tag != 'M' and r.random() < .4: continue
                    t, T = g.file(tag, dep, r.choice([2, 4]))
                    if tag == 'P': t = '#pragma GCC system_header\n' + t
                    files[nm] = t
                    if tag in 'SP': continue
                    off = 0
                    for l, c in T:
                        if c == 'poly?': poly.add((nm, l)); continue
                        if c in en and not (tag == 'H' and ign and J[c].get('can_ignore_includes')): exp.add((nm, l, c))
                inc = [f'#include <{x[4:]}>' if x.startswith('sys/') else f'#include "{x}"' for x in files if x != 'main_.cpp']
                head = ['#include <sysm.h>', PRE] + inc; files['sys/sysm.h'] = SYSM; files['main_.cpp'] = '\n'.join(head) + '\n' + files['main_.cpp']
                exp = {(f, l + len(head) if f == 'main_.cpp' else l, c) for f, l, c in exp}; poly = {(f, l + len(head) if f == 'main_.cpp' else l) for f, l in poly}
                for f, t in files.items():
                    p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'w') as fh: fh.write(t)
                sel = en + extra; r.shuffle(sel)
                args = ['-checks=' + ','.join(sel)] + (['-ignore-included-files'] if ign else []) + (['-visit-implicit-code'] if r.random() < .25 else []) + [os.path.join(d, 'main_.cpp'), '--', '-std=c++17', '-w', '-ferror-limit=0', '-isystem', os.path.join(d, 'sys')]
                env = {'CLAZY_CHECKS_AS_ERRORS': ','.join(r.sample(CH, r.choice([1, 3])))} if r.random() < .3 else {}
                todo.append((d, files, args, exp, poly, en, env))
            for (d, files, args, exp, poly, en, env), p, err in ex.map(one, todo):
                rep = {'files': files, 'argv': args, 'env': env}
                if p is None or p.returncode < 0 or p.returncode >= 128: ctx.fail('crash', f'clazy-standalone died ({err or p.returncode})', rep); continue
                D = R.parse(p.stderr)
                bad = [x for x in D if 'error' in x.sev and not x.check]
                if bad: ctx.notes = [f'some generated file does not compile: {bad[0]}']; continue
                got = {(os.path.relpath(x.file, d), x.line, x.check) for x in D if x.check in en}
                got = {x for x in got if not (x[2] == 'copyable-polymorphic' and (x[0], x[1]) in poly)}
                ctx.evals += 1
                if len(exp) > 2: ctx.evals -= 1; ctx.case(sorted(files.items()), {'argv': args[:2], 'triggers': len(exp)})
                if got != exp:
                    a, b = sorted(exp - got), sorted(got - exp)
                    ctx.fail('dispatch', (f'{a[0][2]} not reported at {a[0][0]}:{a[0][1]}' if a else f'{b[0][2]} reported at {b[0][0]}:{b[0][1]}, which has no trigger or must not be visited') + f' with {args[:3]} {env}', {**rep, 'missing': a, 'unexpected': b, 'stderr': p.stderr[-3000:]})
                shutil.rmtree(d, ignore_errors=True)

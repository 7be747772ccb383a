"""C02: clazy-standalone on generated sources full of suppression comments, against an independent reading of the comments."""
import os
from native import run as R
CHECKS = ['rule-of-three', 'copyable-polymorphic', 'function-args-by-ref', 'non-pod-global-static']
def glob_match(g, s):
    if g == '': return s == ''
    if g[0] == '*': return any(glob_match(g[1:], s[i:]) for i in range(len(s) + 1))
    return s != '' and s[0] == g[0] and glob_match(g[1:], s[1:])
def code(kind, n):
    if kind == 0: return f'struct R{n} {{ R{n}(const R{n} &); ~R{n}(); int x; }};'
    if kind == 1: return f'struct P{n} {{ virtual ~P{n}(); int q; }};'
    if kind == 2: return f'void f{n}(Big b) {{ (void)b; }}'
    return f'static NP v{n};'
FILL = ['int i%d;', 'const char *s%d = "// clazy:skip";', 'const char *s%d = "NOLINT";', '', 'const char *s%d = R"(/* NOLINTBEGIN */ // clazy:excludeall=rule-of-three)";', 'void g%d();']
class Sup:
    def __init__(self): self.skip = False; self.all = set(); self.bare = set(); self.line = set(); self.wild = []; self.ranges = []; self.stack = []
    @staticmethod
    def cut(s, d=','):
        p = s.split(d)
        return p[:-1] if p[-1] == '' else p
    def pats(self, txt): return [i.strip(' \t\n\v\f\r')[6:] for i in self.cut(txt) if i.lstrip(' \t\n\v\f\r').startswith('clazy-')]
    def comment(self, text, line):
        if self.skip: return
        def paren(p):
            if text[p:p + 1] == '(' and ')' in text[p:]: return text[p + 1:text.index(')', p)]
            return ''
        k = text.find('NOLINT')
        if k >= 0:
            b, e = text.find('NOLINTBEGIN', k), text.find('NOLINTEND', k)
            if b >= 0: self.stack.append((line, paren(b + 11)))
            elif e >= 0:
                t = paren(e + 9)
                if self.stack and self.stack[-1][1] == t:
                    l0, t0 = self.stack.pop()
                    ps = self.pats(t0)
                    if t0 == '' or ps: self.ranges.append((l0, line, ps if t0 else None))
            else:
                nxt = text.startswith('NOLINTNEXTLINE', k)
                t = paren(k + (14 if nxt else 6)); l = line + (1 if nxt else 0)
                if t == '': self.bare.add(l)
                else: self.wild += [(l, p) for p in self.pats(t)]
        if 'clazy:skip' in text: self.skip = True; return
        for kw, f in (('clazy:excludeall=', lambda c: self.all.add(c)), ('clazy:exclude=', lambda c: self.line.add((line, c))), ('clazy:exclude-next-line=', lambda c: self.line.add((line + 1, c)))):
            j = 0; hit = None
            while hit is None:
                j = text.find(kw, j)
                if j < 0: break
                rest = text[j + len(kw):]; n = 0
                while n < len(rest) and rest[n] not in ' \t\n\v\f\r': n += 1
                if n: hit = rest[:n]
                j += 1
            if hit is not None:
                for c in self.cut(hit): f(c)
                return
    def suppressed(self, c, l):
        return (self.skip or c in self.all or l in self.bare or (l, c) in self.line or any(l == x and glob_match(p, c) for x, p in self.wild)
                or any(a <= l <= b and (ps is None or any(glob_match(p, c) for p in ps)) for a, b, ps in self.ranges))
def items(r, nol):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        c = r.choice(CHECKS); x = r.random(); k = r.randrange(len(c) + 1)
        if not nol: out.append(c if x < .75 else r.choice([c[:-1], c + 'x', 'clazy-' + c, c.upper(), '', 'bogus', '*', c[:k] + '*']))
        else: out.append('clazy-' + c if x < .5 else r.choice(['clazy-*', 'clazy-' + c[:k] + '*', 'clazy-*' + c[k:], 'clazy-' + c[:k] + '*' + c[k + 2:], 'clazy-' + c.replace('-', '.'), 'clazy-' + c[:-1], 'clazy-' + c + 'x', c, '*', 'readability-magic', 'google-*', 'clazy-.*', 'clazy-' + c[1:], '', 'clazy-(' + c, 'Clazy-' + c, ' clazy-' + c, 'clazy-' + c + ' ', '\tclazy-' + c]))
    return r.choice([',', ',', ',', ', ']).join(out)
def directive(r, opened):
    x = r.random()
    if x < .004: return 'clazy:skip'
    if x < .02: return 'clazy:excludeall=' + items(r, False)
    if x < .17: return 'clazy:exclude=' + items(r, False)
    if x < .32: return 'clazy:exclude-next-line=' + items(r, False)
    if x < .37: return r.choice(['NOLINT', 'NOLINTNEXTLINE', 'NOLINT', 'NOLINTNEXTLINE', 'NOLINT()', 'nolint', 'NOLINT NEXTLINE', 'NOLINT (clazy-x)'])
    if x < .5: return 'NOLINT(' + items(r, True) + ')'
    if x < .62: return 'NOLINTNEXTLINE(' + items(r, True) + ')'
    if x < .78:
        t = '' if r.random() < .2 else '(' + items(r, True) + ')'
        opened.append(t); return 'NOLINTBEGIN' + t
    if x < .96 and opened:
        t = opened.pop() if r.random() < .85 else r.choice(opened)
        return 'NOLINTEND' + t
    return r.choice(['clazy:exclude', 'clazy:exclude= rule-of-three', 'clazy:', 'clazy:skipp'[:9], 'clazy:exclude_next_line=rule-of-three', 'NOLINTEND', 'NOLINTEND(clazy-*)', 'NOLIN', 'clazy: skip', 'clazy:excludeall= x']) if r.random() < .9 else 'clazy:skip'
def gen(r, sz=None):
    lines, sup, warn = [], Sup(), []
    opened = []
    n = sz or r.choice([4, 8, 12, 20, 30])
    def put(c): 
        return c
    lines.append('struct Big { int a[100]; }; struct NP { NP(); ~NP(); int z; NP(const NP &); NP &operator=(const NP &); };')
    pend = []
    for i in range(n):
        l = len(lines) + 1
        x = r.random()
        if x < .6:
            ks = [r.randrange(4)] if r.random() < .75 else r.sample(range(4), 2)
            c = ' '.join(code(k, f'{i}_{j}') for j, k in enumerate(ks))
            warn += [(l, CHECKS[k], l) for k in ks]
        elif x < .7:
            c = f'MK(M{i})'; warn.append((l, CHECKS[0], l))
        elif x < .76:
            # macro argument: reported where it is written, governed by the line of the expansion
            com = ''
            if r.random() < .6: com = '// ' + directive(r, opened); sup.comment(com, l)
            k = r.randrange(4)
            lines.append('WRAP( ' + com); c = code(k, f'{i}_w')
            if r.random() < .5: com = '// ' + directive(r, opened); sup.comment(com, l + 1); c += ' ' + com
            lines += [c, ')']; warn.append((l + 1, CHECKS[k], l))
            continue
        else: c = r.choice(FILL); c = c % i if '%d' in c else c
        if r.random() < .55:
            t = r.choice(['', '', 'see ', 'TODO: ']) + directive(r, opened) + r.choice(['', '', '', ' because', ' -- x, y'])
            if r.random() < .1: t += ' ' + directive(r, [])if 'NOLINT' not in t or 'BEGIN' in t or 'END' in t else ' clazy:exclude=' + items(r, False)
            y = r.random()
            if y < .6: com = '//' + r.choice(['', ' ', '  ']) + t; sup.comment(com, l); lines.append(c + ' ' + com)
            elif y < .85: com = '/*' + r.choice(['', ' ']) + t + ' */'; sup.comment(com, l); lines.append(com + ' ' + c if r.random() < .3 else c + ' ' + com)
            else:
                com = '/*' + ' ' + t + '\n   more */'; sup.comment(com, l); lines += (c + ' ' + com).split('\n')
        elif r.random() < .1 and 'MK' not in c:
            # not compiled, but comments of the file all the same
            t = directive(r, opened); com = '// ' + t
            lines += [c, '#if 0', 'int z; ' + com, '#endif']; sup.comment(com, l + 2)
        else: lines.append(c)
    lines[0] += ' ' + '#'.join(['']) 
    txt = '\n'.join(lines)
    txt = txt + ('\n' if r.random() < .8 else '')
    return txt, sup, warn
MK = ['-DMK(n)=struct n { n(const n &); ~n(); int x; };', '-DWRAP(x)=x']
def run(ctx):
    r = ctx.rng
    ctx.rule = ('random C++ files with code that triggers four checks and comments holding suppression directives (all kinds, lists, globs, near misses, nesting, headers, block comments, '
                'directives in strings and in skipped code); the reported (line, check) set is compared with an independent reading; non-trivial = a file with at least one suppressed and one reported warning')
    rounds = 0
    maxr = 200 if ctx.tier == 'thorough' else 30 if ctx.deep else 12
    while rounds < maxr and ctx.left() > 3 and not ctx.fresh_fail():
        rounds += 1
        d = os.path.join(ctx.scratch, f'r{rounds}')
        files, exp = {}, {}
        for i in range(400):
            t, s, w = gen(r, sz=r.choice([1, 2, 3]) if i % 4 == 0 else None)
            n = f'm{i}.cpp'; e = {n: (s, w)}
            if i % 5 == 1:
                h = f'm{i}.h'; t2, s2, w2 = gen(r)
                t2 = t2.replace('struct Big {', 'struct BigH {').replace('struct NP {', 'struct NPH {').replace('NP(', 'NPH(').replace('NP &', 'NPH &').replace('(Big b)', '(BigH b)').replace('static NP ', 'static NPH ')
                for a in 'RPfvMisg': t2 = __import__('re').sub(r'\b' + a + r'(\d+)', a + r'h\1', t2)
                files[h] = t2; e[h] = (s2, w2)
                ls = t.split('\n'); ls[0] = f'#include "{h}"\n#line 1\n' .replace('\n#line 1\n', ' ') if False else ls[0]
                # the include goes at the end, so that line numbers stay
                t = t.rstrip('\n') + f'\n#include "{h}"\n'
            files[n] = t; exp[n] = e
        res, crashed = R.batch(d, files, ['--checks=level0,level1,level2,' + ','.join(CHECKS)], MK)
        for n in crashed: ctx.fail('crash', f'clazy-standalone crashed on {n}', {'file': files[n]})
        for n, e in exp.items():
            for f, (s, w) in e.items():
                want = sorted({(l, c) for l, c, m in w if not s.suppressed(c, m)})
                got = sorted({(x.line, x.check) for x in res.get(f, []) if x.check in CHECKS})
                hid = len({x[:2] for x in w}) - len(want)
                ctx.evals += 1
                if want and hid: ctx.case(files[f], {'file': files[f][:600], 'reported': want[:6]} if rounds == 1 and len(files[f]) < 700 else None); ctx.evals -= 1
                if got != want:
                    a, b = sorted(set(want) - set(got)), sorted(set(got) - set(want))
                    ctx.fail('suppress', f'{f}: ' + (f'line {b[0][0]}: {b[0][1]} reported although a comment suppresses it' if b else f'line {a[0][0]}: {a[0][1]} silenced although no comment covers it'),
                             {'file': files[f], 'main': files[n], 'options': MK, 'reported': got, 'expected': want})
        import shutil; shutil.rmtree(d, ignore_errors=True)

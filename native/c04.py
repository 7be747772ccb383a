"""C04: place, severity, text and number of the reported warnings, on generated files."""
import os, shutil, collections
from native import run as R
CH = ['rule-of-three', 'copyable-polymorphic', 'function-args-by-ref']
PRE = 'template<int N> struct BigT { int a[100]; }; template<typename T, int N> struct BigU { T t; int a[60]; }; constexpr int s = 4, d = 5, n = 6;'
def gen(r, i):
    L = [PRE]; W = []      # (line, col, check, text)
    guard = False
    def nm(): gen.k += 1; return f'Q{gen.k}'
    for j in range(r.choice([2, 4, 8])):
        x = r.random(); ind = ' ' * r.choice([0, 0, 1, 4, 9]); l = len(L) + 1; c = len(ind) + 1
        if x < .15: L.append(r.choice(['', 'int %s();' % nm(), '// 100% %s %0 %1'])); continue
        if x < .35:
            a = nm(); L.append(f'{ind}struct {a} {{ {a}(const {a} &); ~{a}(); int x; }};'); W.append((l, c, CH[0], f'{a} has dtor, copy-ctor but not copy-assignment')); continue
        if x < .45:
            a = nm(); L.append(f'{ind}struct {a} {{ {a} &operator=(const {a} &); int x; ~{a}(); }};'); W.append((l, c, CH[0], f'{a} has dtor, copy-assignment but not copy-ctor')); continue
        if x < .6:
            a = nm(); L.append(f'{ind}struct {a} {{ virtual ~{a}(); int q; }};'); W.append((l, c, CH[1], f'Polymorphic class {a} is copyable. Potential slicing.')); continue
        if x < .7:   # twice in one macro expansion, and the same text in two places
            a, b = nm(), nm(); L.append(f'{ind}MK2({a}, {b})'); W.append((l, c, CH[0], f'{a} has dtor, copy-ctor but not copy-assignment')); continue
        if x < .77:  # several expansions in one line, and one over several lines
            a, b = nm(), nm(); sep = r.choice([' ', '  ', '', ';'])
            L.append(f'{ind}MK({a}){sep}MK({b})'); W.append((l, c, CH[0], f'{a} has dtor, copy-ctor but not copy-assignment')); W.append((l, c + 4 + len(a) + len(sep), CH[0], f'{b} has dtor, copy-ctor but not copy-assignment')); continue
        v = nm().lower(); f = nm().lower()
        ty, sz = r.choice([('BigT<7 % s>', 400), ('BigT<100 %d>', 400), ('BigT<7 %n>', 400), ('BigT<s%0x10>', 400), ('BigU<int, 9%s>', 244), ('BigT<-1>', 400), ('BigT<1>', 400), ('BigT<s % d % n>', 400), ('BigT<(s&d)|n^1>', 400), ("BigT<'%'>", 400), ("BigT<'\"'>", 400)])
        pre = f'{ind}void {f}('
        L.append(f'{pre}{ty} {v}) {{ (void){v}; }}'); W.append((l, len(pre) + 1, CH[2], (ty, sz, v)))
    return '\n'.join(L) + '\n', W
gen.k = 0
def run(ctx):
    r = ctx.rng
    ctx.rule = 'random files whose warnings have unusual texts (%, quotes), all combinations of CLAZY_CHECKS_AS_ERRORS, -Werror and CLAZY_NO_WERROR; the exact list of (line, column, severity, text, tag) is compared; non-trivial = a file with at least two warnings'
    n = 0
    rounds = 40 if ctx.tier == 'thorough' else 30 if ctx.deep else 12
    for rd in range(rounds):
        if ctx.left() < 2 or ctx.fresh_fail(): break
        d = os.path.join(ctx.scratch, f'r{rd}'); files, exp = {}, {}
        asE = r.sample(CH, r.choice([0, 0, 1, 1, 2])) 
        items = asE + r.choice([[], ['bogus'], ['rule-of-thre'], ['level7']])
        r.shuffle(items)
        env = {'CLAZY_CHECKS_AS_ERRORS': ','.join(items)} if items else {}
        werr = r.random() < .35; now = r.random() < .35
        if now: env['CLAZY_NO_WERROR'] = r.choice(['1', '', '0'])
        for i in range(96):
            t, w = gen(r, i); files[f'm{i}.cpp'] = t; exp[f'm{i}.cpp'] = w
        comp = ['-DMK(n)=struct n { n(const n &); ~n(); int x; };', '-DMK2(a,b)=MK(a) MK(b)', '-ferror-limit=0'] + (['-Werror'] if werr else [])
        res, crashed = R.batch(d, files, ['-checks=' + ','.join(CH)], comp, env=env)
        for c in crashed: ctx.fail('crash', f'clazy-standalone died on {c}', {'file': files[c], 'env': env, 'options': comp})
        for f, w in exp.items():
            if f in crashed: continue
            want = []
            for l, c, ch, text in w:
                if isinstance(text, tuple):
                    ty, sz, v = text; text = None
                sev = 'error' if ch in asE or (werr and not now) else 'warning'
                want.append((l, c, sev, text if text else (sz, v), f'-Wclazy-{ch}'))
            got = []
            texts = {}
            for x in res[f]:
                if x.check not in CH: continue
                t = x.msg
                if x.check == CH[2]:
                    # the type is printed by clang: only what clazy adds around it is compared, and that nothing of it is lost
                    i0, i1 = t.find('(sizeof '), t.rfind(' is ')
                    inner = t[i0 + 8:i1]
                    name = inner.split(' ')[-1]
                    ok = t.startswith('Missing reference on large type (sizeof ') and t.endswith(' bytes)') and inner.startswith(('BigT<', 'BigU<')) and inner.count('<') >= 1 and '>' in inner
                    t = (int(t[i1 + 4:-7]), name) if ok else t
                    ty = next((y[3][0] for y in w if isinstance(y[3], tuple) and y[3][2] == name), '')
                    if ok and '%' in ty and '%' not in inner: t = x.msg
                got.append((x.line, x.col, x.sev, t, x.tag))
            want.sort(key=str); got.sort(key=str)
            ctx.evals += 1; n += 1
            if len(want) > 1: ctx.evals -= 1; ctx.case(files[f], {'file': files[f][:500], 'env': env, 'expected': want[:4]} if n < 3 else None)
            if got != want:
                a = [y for y in want if y not in got]; b = [y for y in got if y not in want]
                ctx.fail('report', f'expected {a[:1]} but reported {b[:1]} (env {env}, {comp[3:]})', {'file': files[f], 'env': env, 'options': comp, 'expected': want, 'reported': got})
        shutil.rmtree(d, ignore_errors=True)

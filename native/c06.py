"""C06: plugin, standalone and clang-tidy front-ends report the same warnings for the same selection."""
import os, re, json, shutil, concurrent.futures as cf
from native import run as R
from native.c05 import Gen, CH, PRE
import build
ALL = CH + ['ifndef-define-typo', 'compare-member-check', 'missing-qobject-macro']
QO = ['class QObject { public: virtual ~QObject(); };', '#define Q_OBJECT int qo_;']
TIDY = re.compile(r'^(?P<file>[^\n:]+):(?P<line>\d+):(?P<col>\d+): (?P<sev>warning|error): (?P<msg>.*) \[clazy-(?P<c>[^\],]+)(?:,[^\]]*)?\]$')
def extra(r, g, tag):
    L = []
    for _ in range(r.choice([0, 0, 1, 2])):
        a = tag + g.nm(); k = r.randrange(4)
        if k == 0: L += [f'#ifndef {a}_FOOBAR_H', f'#define {a}_FOBOAR_H', '#endif']
        elif k == 1: L += [f'struct {a} {{ int x, y; bool operator==(const {a} &o) const {{ return x == o.x; }} }}; inline bool {a}_f({a} p, {a} q) {{ return p == q; }}']
        elif k == 2: L += [f'class {a} : public QObject {{ int x; }};']
        else: L += [f'class {a} : public QObject {{ Q_OBJECT int x; }};']
    return L
def plain(p, d, base): return {(os.path.relpath(x.file, d), x.line, x.col, x.sev, x.check, x.msg) for x in R.parse(p.stderr) if x.check}
def tidied(p, d, base): return {(os.path.relpath(m['file'], d), int(m['line']), int(m['col']), m['sev'], m['c'], m['msg']) for m in map(TIDY.match, p.stdout.split('\n')) if m}
def run(ctx):
    r = ctx.rng; st = build.standalone(); so = build.lib(); td = build.tidy()
    ctx.rule = ('random sources with headers are checked with the same random selection of checks and options by the compiler plugin, by clazy-standalone and by clang-tidy (one to three files per run); the sets of (file, line, column, severity, check, text) '
                'have to be the same; non-trivial = at least three warnings')
    J = {c['name']: c for c in json.load(open(os.path.join(build.REPO, 'checks.json')))['checks']}
    n = 0; lim = 3000 if ctx.tier == 'thorough' else 900 if ctx.deep else 400
    def one(sc):
        d, files, mains, sel, env, po, so_, comp, senv = sc
        try:
            ps = [R.tool([build.CXX, '-fsyntax-only', '-Xclang', '-load', '-Xclang', so, '-Xclang', '-add-plugin', '-Xclang', 'clazy'] + [y for x in po for y in ('-Xclang', '-plugin-arg-clazy', '-Xclang', x)] + comp + [os.path.join(d, m)], env=env, cwd=d) for m in mains]
            s = R.tool([st, '-checks=' + ','.join(sel)] + so_ + [os.path.join(d, m) for m in mains] + ['--'] + comp, env=senv, cwd=d)
            t = None
            if not so_ and not env: t = R.tool(['/usr/bin/clang-tidy-20', '-quiet', '-load=' + td, '-checks=-*,' + ','.join('clazy-' + c for c in sel), '-header-filter=.*'] + [os.path.join(d, m) for m in mains] + ['--'] + comp, env=env, cwd=d)
        except Exception as e: return sc, None, None, None, str(e)
        return sc, ps, s, t, ''
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 3 and not ctx.fresh_fail():
            todo = []
            for _ in range(40):
                d = os.path.join(ctx.scratch, f's{n}'); n += 1
                g = Gen(r); dep = r.choice([1, 2, 4]); files = {}
                heads = r.sample(['u.h', 'v.h'], r.choice([0, 1, 2]))
                for h in heads:
                    t, _ = g.file(h[0].upper(), dep, 2); files[h] = '#pragma once\n' + '\n'.join(extra(r, g, h[0].upper())) + '\n' + t
                mains = [f'm{i}.cpp' for i in range(r.choice([1, 1, 2, 3]))]
                for i, m in enumerate(mains):
                    t, _ = g.file('M', dep, r.choice([1, 2, 3]))
                    files[m] = '\n'.join([PRE] + QO + [f'#include "{h}"' for h in heads if r.random() < .8] + extra(r, g, 'M')) + '\n' + t
                sel = r.sample(ALL, r.choice([1, 2, 4, len(ALL)])); env = {}; po = []; so_ = []; comp = ['-std=c++17', '-w', '-ferror-limit=0']
                mode = r.randrange(8)
                if mode < 5:
                    for o in ('only-qt', 'ignore-included-files', 'visit-implicit-code', 'qt-developer'):
                        if r.random() < .3: po.append(o); so_.append('-' + o)
                    if r.random() < .4: comp.append(r.choice(['-DQT_CORE_LIB', '-DQT_CORE_LIB=1', '-DQT_CORE']))
                    if r.random() < .5: env['CLAZY_HEADER_FILTER'] = r.choice(['u', '^$', r'v\.h', '.*', '.*'])
                    if r.random() < .4: env['CLAZY_IGNORE_DIRS'] = r.choice([r'u\.h', r'v\.h', 'm0', 'nothing'])
                    if r.random() < .3: env['CLAZY_CHECKS_AS_ERRORS'] = ','.join(r.sample(ALL, 2))
                    if r.random() < .2: env['CLAZY_CHECKS'] = r.choice(['no-rule-of-three', 'copyable-polymorphic', 'rule-of-three,no-virtual-call-ctor', 'bogus'])
                    if r.random() < .1: po += r.choice([['export-fixes'], ['print-requested-checks']])
                    if r.random() < .2: comp.append('-Werror')
                    if r.random() < .2: env['CLAZY_NO_WERROR'] = '1'
                    if 'export-fixes' in po: so_.append('-export-fixes=' + os.path.join(d, 'x.yaml'))
                # the filters of the standalone tool come from its options, or from the environment
                senv = dict(env)
                for e, o in (('CLAZY_HEADER_FILTER', '-header-filter='), ('CLAZY_IGNORE_DIRS', '-ignore-dirs=')):
                    if e in env and r.random() < .5:
                        so_.append(o + env[e]); senv.pop(e)
                        if r.random() < .5: senv[e] = r.choice(['.*', 'nothing', 'm0'])
                po.insert(r.randint(0, len(po)), ','.join(sel))
                for f, t in files.items():
                    p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'w') as fh: fh.write(t)
                todo.append((d, files, mains, sel, env, po, so_, comp, senv))
            for (d, files, mains, sel, env, po, so_, comp, senv), ps, s, t, err in ex.map(one, todo):
                rep = {'files': files, 'selection': sel, 'plugin_args': po, 'standalone_args': so_, 'compiler_args': comp, 'env': env, 'standalone_env': senv}
                if err: ctx.fail('run', err, rep); continue
                dead = [w for w, q in [('plugin', x) for x in ps] + [('standalone', s), ('clang-tidy', t)] if q is not None and (q.returncode < 0 or q.returncode >= 128)]
                if dead: ctx.fail('crash', f'{dead[0]} died with {po} / {so_}', rep); continue
                A = set().union(*[plain(p, d, None) for p in ps]); B = plain(s, d, None)
                ctx.evals += 1
                if len(A) > 2: ctx.evals -= 1; ctx.case((sorted(files.items()), sel, po), {'selection': sel, 'plugin_args': po, 'env': env, 'warnings': len(A)})
                if A != B:
                    a, b = sorted(A - B), sorted(B - A)
                    ctx.fail('frontends', (f'only the plugin reports {a[0]}' if a else f'only clazy-standalone reports {b[0]}') + f' with {po[:4]} {env} on {len(mains)} file(s)', {**rep, 'plugin_only': a[:8], 'standalone_only': b[:8]})
                elif t is not None:
                    C = tidied(t, d, None)
                    # clang-tidy reports a place once per check and text
                    A, C = {x[:3] + x[4:] for x in A}, {x[:3] + x[4:] for x in C}
                    if A != C:
                        a, b = sorted(A - C), sorted(C - A)
                        ctx.fail('frontends', (f'clang-tidy does not report {a[0]}' if a else f'only clang-tidy reports {b[0]}') + f' on {len(mains)} file(s)', {**rep, 'missing_in_tidy': a[:8], 'tidy_only': b[:8], 'out': t.stdout[-1500:] + t.stderr[-500:]})
                shutil.rmtree(d, ignore_errors=True)

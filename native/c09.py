"""C09: no input makes the compiled tool crash.  Inputs: the corpus of inputs that crashed it once, generated programs with
Qt-like declarations of arbitrary shape, mutants of the repository's test inputs against the real Qt headers."""
import os, re, glob, json, random, time, hashlib, shutil, subprocess, concurrent.futures as cf
import build
from native import run as R, fakeqt, mutate
HERE = os.path.dirname(os.path.abspath(__file__))
def checks(): return [c['name'] for c in json.load(open(build.REPO + '/checks.json'))['checks']]
def dead(p, cs, fl):
    try: q = R.tool([build.standalone(), '-checks=' + ','.join(cs), p, '--'] + fl, timeout=90)
    except subprocess.TimeoutExpired: return None, ''
    return q.returncode < 0 or q.returncode >= 128, q.stderr
def who(p, cs, fl):
    """the checks that crash on their own"""
    if not dead(p, cs, fl)[0]: return []
    if len(cs) == 1: return cs
    h = len(cs) // 2
    return who(p, cs[:h], fl) + who(p, cs[h:], fl)
def clang_dies(p, fl):
    q = subprocess.run([build.CXX, '-fsyntax-only', p] + fl, capture_output=True)
    return q.returncode < 0 or q.returncode >= 128
def shrink(p, cs, fl, seconds=40):
    """a smaller file that still crashes, line by line"""
    t0 = time.time(); l = open(p, errors='replace').read().split('\n'); k = max(1, len(l) // 2); q = p + '.min.cpp'
    while k and time.time() - t0 < seconds:
        i = 0
        while i < len(l) and time.time() - t0 < seconds:
            c = l[:i] + l[i + k:]
            with open(q, 'w') as f: f.write('\n'.join(c))
            if dead(q, cs, fl)[0] and not clang_dies(q, fl): l = c
            else: i += k
        k //= 2
    return '\n'.join(l)
def suspects(ctx):
    """the test directories of the checks whose contracts fail"""
    s = set()
    for f in getattr(ctx, 'suspect_files', []):
        s.add(os.path.basename(f).split('.')[0])
    return s
def run(ctx):
    J = checks(); d = ctx.scratch
    ctx.rule = 'programs (corpus, generated, mutated test inputs) analysed with every check switched on; distinct by their text; non-trivial: the compiler accepts them, so that the checks run'
    n = dict(corpus=0, generated=0, mutants=0); reported = [0]; slow = []
    fl17 = ['-std=c++17', '-w', '-ferror-limit=0']
    def report(p, fl, kind):
        if clang_dies(p, fl): ctx.notes.append('clang itself crashes on ' + os.path.basename(p)); return
        reported[0] += 1
        if reported[0] > 3: return
        w = who(p, J, fl) or ['(no single check)']
        txt = shrink(p, w if w[0] in J else J, [x for x in fl])
        pch = any('core.pch' in x for x in fl)
        ctx.fail(f'crash:{w[0]}', f'{", ".join(w[:4])} crashes the tool on a {kind}', {'checks': w, 'flags': [x for x in fl if 'pch' not in x], 'includes': mutate.INC if pch else [], 'program': txt[-20000:]})
    def go(p, fl, kind):
        k, e = dead(p, J, fl)
        if k is None: slow.append(os.path.basename(p))
        return p, fl, kind, k, e
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for p, fl, kind, k, e in ex.map(lambda a: go(*a), [(p, [std] + fl17[1:], 'known input') for p in sorted(glob.glob(HERE + '/corpus09/*.cpp')) for std in ('-std=c++17', '-std=c++20', '-std=c++23')]):
            n['corpus'] += 1; ctx.case(('corpus', p, fl[0]))
            if k: report(p, fl, kind)
        qt = mutate.prepare(d)
        if not qt: ctx.notes.append('no Qt headers here: no mutants of the test inputs')
        sus = suspects(ctx)
        T = mutate.inputs() if qt else []
        # the inputs that compile unmutated
        def okb(i):
            g = T[i::16]
            return [g[k] for k in mutate.compiling(f'{d}/b{i}.cpp', [f'namespace m{k} {{ {x[1]}\n}}' for k, x in enumerate(g)], d)]
        base = sorted(x for l in ex.map(okb, range(16)) for x in l) if qt else []
        foc = [b for b in base if b[0] in sus]
        ctx.notes.append(f'{len(base)} of {len(T)} test inputs are mutated' + (f', {len(foc)} of them in particular' if foc else ''))
        warned = set()
        def job(i):
            r = random.Random(f'C09-{ctx.seed}-{i}')
            if qt and base and i % (4 if foc else 2) != 0:
                p = f'{d}/m{i}.cpp'; b = foc if foc and r.random() < .8 else base
                al = len(mutate.compiling(p, mutate.mutants(r, b, 16), d))
                if not al: return p, [], 'mutants', None, None, 0
                return (*go(p, mutate.flags(d), 'mutants'), al)
            g = fakeqt.Gen(r, [os.path.join(build.REPO, f) for f in getattr(ctx, 'suspect_files', [])] if r.random() < .7 else []); p = f'{d}/g{i}.cpp'
            try: t, ok = fakeqt.repair(g.program(), d, f'g{i}.cpp')
            except subprocess.TimeoutExpired: return p, [], 'generated', None, None, 0
            with open(p, 'w') as f: f.write(t)
            return (*go(p, fl17, 'generated'), 1)
        i = 0; pend = set()
        while (ctx.left() > 5 and reported[0] < 3) or pend:
            while len(pend) < build.JOBS and ctx.left() > 5 and reported[0] < 3:
                pend.add(ex.submit(job, i)); i += 1
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for x in done:
                p, fl, kind, k, e, al = x.result()
                if e is not None:
                    n[kind] += al; warned |= set(re.findall(r'-Wclazy-([\w-]+)', e))
                    h = hashlib.sha1(open(p, 'rb').read()).hexdigest()
                    for a in range(al): ctx.case((kind, h, a))
                    if len(ctx.samples) < 3: ctx.samples.append({'kind': kind, 'program': open(p, errors='replace').read()[-600:]})
                if k: report(p, fl, 'generated program' if kind == 'generated' else 'mutant of a test input')
                elif os.path.exists(p): os.remove(p)
    ctx.notes.append(f'{n}; {len(warned)} checks gave a warning on them; too slow to finish in 90 s: {len(slow)}')

"""C01: the real CheckManager (and the real command line tools) against an independent selection oracle."""
import subprocess, os, json
import build
US, RS = '\x1f', '\x1e'

def registry(bin_):
    out = subprocess.run([bin_], input='D\n', capture_output=True, text=True, errors='surrogateescape').stdout.split('\n')
    reg = {}
    for l in out:
        if not l.startswith('L'): continue
        f = l.split(US)
        reg[int(f[0][1:])] = [(x.split(RS)[0], int(x.split(RS)[1]), x.split(RS)[3:]) for x in f[1:]]
    return reg

class Oracle:
    def __init__(self, table):
        self.checks = {n: lv for n, lv, _ in table}
        self.fix = {}
        for n, _, fx in table:
            for f in fx: self.fix.setdefault(f, n)
    def items(self, s):
        # a trailing separator does not start another item
        p = s.split(',')
        return p[:-1] if p[-1] == '' else p
    def parse(self, s):
        sel, dis = set(), set()
        for it in self.items(s):
            if it in self.checks: sel.add(it)
            elif it in self.fix: sel.add(self.fix[it])
            elif it in ('level0', 'level1', 'level2'): sel |= {n for n, l in self.checks.items() if l <= int(it[5])}
            elif it.startswith('no-') and it[3:] in self.checks: dis.add(it[3:])
        return sel, dis
    def env(self, e):
        if e is None: return set(), set()
        if len(e) >= 3 and e[0] == '"' == e[-1]: e = e[1:-1]
        if e == 'all_checks': return {n for n, l in self.checks.items() if l <= 2}, set()
        s, d = self.parse(e)
        return s - d, d
    def requested(self, args, e):
        args = list(args)
        lv = -1
        for i in range(3):
            if f'level{i}' in args:
                args.remove(f'level{i}'); lv = i; break
        if len(args) > 1: return [], args
        sel, dis = set(), set()
        if len(args) == 1:
            sel, dis = self.parse(args[0])
            sel -= dis
            if not sel and not dis: return [], args
        es, ed = self.env(e)
        sel |= es; dis |= ed
        if not sel and lv < 0: lv = 1
        if lv >= 0: sel |= {n for n, l in self.checks.items() if l <= lv}
        return sorted(sel - dis), args

def gen_item(r, o):
    names = o.names
    x = r.random()
    if x < .35: return r.choice(names)
    if x < .5: return 'no-' + r.choice(names)
    if x < .62: return r.choice(['level0', 'level1', 'level2'])
    if x < .7: return r.choice(o.fixes)
    if x < .74: return 'no-' + r.choice(o.fixes)
    if x < .78: return r.choice(['level3', 'level9', 'level-1', 'level', 'level00', 'level12', 'level1 ', ' level1', 'Level1', 'levelx', 'level/', 'no-level0', 'no-level2', 'xlevel1'])
    if x < .82: return ''
    if x < .86: return 'fix-' + r.choice(names)
    if x < .9:
        n = r.choice(names); k = r.randrange(len(n))
        return r.choice([n[:k], n + 'x', n[:k] + n[k:].upper(), ' ' + n, n + ' ', 'no-no-' + n, 'No-' + n, 'no' + n, 'no_' + n])
    if x < .93: return r.choice(['no-', 'no', 'all_checks', 'no-all_checks', 'bogus', '-', 'fix-', '"', 'é', '*', 'manuallevel'])
    return r.choice(names)
def gen_list(r, o):
    if r.random() < .03: return r.choice(['', ',', ',,', '"', '""', '"a"'])
    n = r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 8])
    l = [gen_item(r, o) for _ in range(n)]
    if r.random() < .3:      # select and deselect the same thing
        c = r.choice(o.names); l.insert(r.randrange(len(l) + 1), c); l.insert(r.randrange(len(l) + 1), 'no-' + c)
    if r.random() < .1: l += l
    s = ','.join(l)
    if r.random() < .1: s += ','
    if r.random() < .05: s = ',' + s
    return s
def gen_env(r, o):
    x = r.random()
    if x < .35: return None
    if x < .45: return r.choice(['all_checks', '"all_checks"', '""', '"', '"""', '', '"l"', 'all_checks,', '"level0', 'level0"'])
    s = gen_list(r, o)
    if r.random() < .3: s = '"' + s + '"'
    return s
def gen_args(r, o):
    x = r.random()
    if x < .06: return []
    a = [gen_list(r, o)]
    if x < .4: a.insert(r.randrange(2), r.choice(['level0', 'level1', 'level2']))
    elif x < .46: a = [r.choice(['level0', 'level1', 'level2', 'level3'])]
    elif x < .52: a += [gen_list(r, o)]
    elif x < .56: a = [r.choice(['level0', 'level1', 'level2']) for _ in range(r.choice([2, 2, 3]))]
    return a

def run(ctx):
    b = build.native('n01')
    regs = registry(b)
    if not regs or 3 not in regs:
        ctx.fail('registry-dump', 'CheckManager does not start', {}); return
    table = regs[3]
    o = Oracle(table)
    o.names = [n for n, _, _ in table]; o.fixes = sorted(o.fix) or ['fix-none']
    ctx.rule = ('random (CLAZY_CHECKS, CLAZY_CHECKS_AS_ERRORS, argument list) triples built from real check/fix-it/level names, negations, duplicates, '
                'near-misses and empty items; compared with an independent selection function; non-trivial = distinct triple')
    # the registry itself against checks.json and internal consistency
    for lv in regs:
        want = {(n, l) for n, l, _ in table if l <= lv}
        got = {(n, l) for n, l, _ in regs[lv]}
        if want != got: ctx.fail(f'availableChecks({lv})', f'availableChecks({lv}) differs from the checks of level <= {lv}: {sorted(want ^ got)[:5]}', {'level': lv})
        ctx.case(('avail', lv))
    if len(set(o.names)) != len(o.names): ctx.fail('dup-names', 'duplicate registered check names', {})
    r = ctx.rng
    rounds = 0
    maxr = 400 if ctx.tier == 'thorough' else 60 if ctx.deep else 20
    while rounds < maxr and ctx.left() > 5 and not ctx.fresh_fail():
        rounds += 1
        lines, exp = [], []
        if rounds == 1:
            # systematic part: every check alone, negated, with levels; every fix-it
            lines.append(US.join(['E', '0', '', '0', '']))
            for n in o.names + o.fixes + ['no-' + x for x in o.names] + ['level0', 'level1', 'level2', 'all_checks', 'bogus', '']:
                for a in ([n], ['level0', n], [n, 'level2'], [n + ',' + 'no-' + n], ['level1,' + n], ['no-' + n + ',' + n]):
                    lines.append(US.join(['Q'] + a)); exp.append(('Q', None, None, a))
            for n in o.names + ['level0', 'level2', 'bogus']:
                for e in (n, '"no-' + n + '"', 'level0,no-' + n):
                    lines.append(US.join(['E', '1', e, '1', n + ',level0']))
                    for a in ([], [n], ['level1'], ['level0', 'bogus'], ['no-' + n]):
                        lines.append(US.join(['Q'] + a)); exp.append(('Q', e, n + ',level0', a))
                    lines.append('A'); exp.append(('A', e, n + ',level0', None))
        for _ in range(120):
            e, ae = gen_env(r, o), (None if r.random() < .3 else gen_list(r, o))
            lines.append(US.join(['E', '1' if e is not None else '0', e or '', '1' if ae is not None else '0', ae or '']))
            for _ in range(20):
                x = r.random()
                if x < .1: lines.append('A'); exp.append(('A', e, ae, None))
                elif x < .2:
                    s = gen_list(r, o); lines.append(US.join(['S', s])); exp.append(('S', e, ae, s))
                else:
                    a = gen_args(r, o); lines.append(US.join(['Q'] + a)); exp.append(('Q', e, ae, a))
        p = subprocess.run([b], input='\n'.join(lines) + '\n', capture_output=True, text=True, errors='surrogateescape', timeout=300)
        outs = p.stdout.split('\n')[:-1]
        if len(outs) != len(exp):
            ctx.fail('protocol', f'{len(outs)} replies for {len(exp)} queries', {}); return
        for (k, e, ae, a), got in zip(exp, outs):
            ctx.case((k, e, ae, tuple(a) if isinstance(a, list) else a), {'CLAZY_CHECKS': e, 'CLAZY_CHECKS_AS_ERRORS': ae, 'args': a} if ctx.evals % 4001 == 77 else None)
            rep = {'CLAZY_CHECKS': e, 'CLAZY_CHECKS_AS_ERRORS': ae, 'args': a, 'got': got}
            if got == 'CRASH': ctx.fail(f'crash', f'crash for args={a!r} CLAZY_CHECKS={e!r}', rep); continue
            if k == 'A':
                want = [] if ae is None else [n for n in o.items(ae) if n in o.checks]
                g = [x for x in got.split(',') if x]
                if g != want: ctx.fail('as-errors', f'checks as errors for {ae!r}: got {g[:8]}, expected {want[:8]}', rep | {'want': want})
            elif k == 'S':
                s, d = o.parse(a); want = s - d
                g = [x.split(':')[0] for x in got.split(',') if x]
                if set(g) != want: ctx.fail('list', f'list {a!r} selects {sorted(set(g) ^ want)[:6]} wrongly', rep | {'want': sorted(want)})
            else:
                want, rest = o.requested(a, e)
                names, rem = got.split(US)
                g = [x.split(':')[0] for x in names.split(',') if x]
                gl = {x.split(':')[0]: int(x.split(':')[1]) for x in names.split(',') if x}
                if g != want: ctx.fail('requested', f'args={a!r} CLAZY_CHECKS={e!r}: wrongly (de)selected {sorted(set(g) ^ set(want))[:6] or "order/duplicates"}', rep | {'want': want})
                elif any(o.checks.get(n) != l for n, l in gl.items()): ctx.fail('levels', f'args={a!r}: wrong level reported', rep)
                elif [x for x in rem.split(RS)][:-1] != rest: ctx.fail('rest-args', f'args={a!r}: remaining arguments {rem!r}, expected {rest}', rep)
    # the command line tool agrees
    st = build.standalone()
    n = 0
    while n < (200 if ctx.tier == 'thorough' else 25) and ctx.left() > 0 and not ctx.fresh_fail():
        n += 1
        e, s = gen_env(r, o), gen_list(r, o)
        if '\0' in s or s.startswith('-'): continue
        env = {k: v for k, v in os.environ.items() if not k.startswith('CLAZY')}
        if e is not None: env['CLAZY_CHECKS'] = e
        p = subprocess.run([st, '--list-checks', '--checks=' + s, '/dev/null', '--'], capture_output=True, text=True, env=env)
        want, _ = o.requested(['level1' if s == '' else s], e)
        g = [l.strip() for l in p.stdout.split('\n')[1:] if l.strip()]
        ctx.case(('cli', e, s))
        if g != want or p.returncode: ctx.fail('cli-list', f'--list-checks --checks={s!r} with CLAZY_CHECKS={e!r}: differs in {sorted(set(g) ^ set(want))[:6]} rc={p.returncode}', {'checks': s, 'CLAZY_CHECKS': e, 'want': want, 'got': g})

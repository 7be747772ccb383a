"""Emit the Verus file of a property from /repo's current sources, run the verifier, map failures back to C++."""
import copy, json, os, re, subprocess, time, traceback
from .translate import Program, Unit, Fn, Unsupported, sane
from .fntr import FnTr
from .ctypes_ import parse
HERE = os.path.dirname(os.path.abspath(__file__))
VERUS = os.environ.get('VERUS', 'verus')

class FnResult:
    def __init__(self, name):
        self.name, self.status, self.why, self.file, self.line, self.errors = name, 'translated', '', '', 0, []
        self.obl = 0

def without(c, names):
    """the contract without the annotations that mention local names that are gone"""
    gone = re.compile(r'(?<![\w.])(?:' + '|'.join(map(re.escape, names)) + r')\b')
    def ok(t): return '' if gone.search(t) else t
    c = copy.copy(c)
    ls = []
    for l in c.loops:
        l = copy.copy(l)
        l.inv = [x for x in l.inv if ok(x)]
        for a in ('start', 'end', 'before', 'after', 'pre', 'ghost'): setattr(l, a, ok(getattr(l, a) or ''))
        ls.append(l)
    c.loops = ls
    c.hints = {k: v for k, v in c.hints.items() if ok(v)}
    return c

def emit(mod, dumpfiles, vac=False, only=None, drop={}, gone={}, bare=()):
    unit = Unit([json.load(open(d)) for d in dumpfiles])
    contracts = mod.CONTRACTS
    prog = Program(unit, contracts, mod.PRELUDE, byvalue=getattr(mod, 'BYVALUE', ()), extmodels=getattr(mod, 'EXT', None),
                   fields=getattr(mod, 'FIELDS', None), typemap=getattr(mod, 'TYPEMAP', None), globals_=getattr(mod, 'GLOBALS', None))
    for nm, (a, rt) in getattr(mod, 'UNINTERP', {}).items(): prog.uninterp_fn(nm, a, rt)
    results = []
    for pss in (0, 1):
        results = []
        bodies = []
        prog.count_asserts = 0
        for want in getattr(mod, 'FUNCS', list(contracts)):
            fs = [f for f in prog.find_fns(want) if f.get('body')]
            c = contracts[want]
            if c.external or c.inline: continue
            if not fs:
                r = FnResult(want); r.status, r.why = 'missing', f'function {want} not found in the dumped sources'
                results.append(r); continue
            for f in fs[:1] if '(' not in want else fs[:1]:
                r = FnResult(f['n']); r.file, r.line = f['file'], f['line']
                r.key = want
                if want in drop:
                    try: FnTr(prog, f, c).run()     # the types it talks about
                    except Exception: pass
                    r.status, r.why = 'unsupported', 'the annotations do not fit: ' + drop[want]; results.append(r); continue
                if want in bare: c = copy.copy(c); c.loops = []
                if want in gone: c = without(c, gone[want])
                tr = FnTr(prog, f, c)
                try:
                    before = prog.count_asserts
                    head, out = tr.run()
                    r.loops = (len(contracts[want].loops) + len(tr.loops) - len(c.loops), tr.loopno)
                    if len(tr.loops) > tr.loopno:
                        r.note = f'{len(tr.loops) - tr.loopno} loop annotations unused'
                    bodies.append((r, head, out, f))
                    # obligations: asserts + ensures + 2 per invariant + 1 per decreases
                    txt = [o[1] for o in out]
                    r.obl = sum(1 for t in txt if t.startswith('assert(')) + len(c.ensures) * sum(1 for t in txt if t.startswith('return ')) \
                        + 2 * sum(1 for t in txt if '// INV' in t) + sum(1 for t in txt if t.startswith('decreases')) + sum(len(contracts_of_call(prog, contracts, t)) for t in txt if re.match(r'let call\d+_ = ', t))
                except Unsupported as e:
                    r.status, r.why = 'unsupported', str(e)
                except RecursionError as e:
                    r.status, r.why = 'unsupported', 'recursion'
                except Exception as e:
                    r.status, r.why = 'unsupported', 'translator: ' + repr(e) + ' ' + traceback.format_exc()[-600:]
                results.append(r)
    L = open(os.path.join(HERE, 'lib.rs')).read().rstrip('\n').split('\n')
    libn = len(L)
    org = {}
    def add(t, o=None):
        for x in t.split('\n'):
            L.append(x)
            if o: org[len(L)] = o
    add('broadcast use group_lib;')
    body_lines = []
    # external contracts
    ext = []
    bad = {r.key for r in results if r.status == 'unsupported'}
    for want, c in contracts.items():
        if c.external or want in bad:
            fs = prog.find_fns(want)
            if fs:
                tr = FnTr(prog, fs[0], c)
                was, c.external = c.external, True
                fs[0].setdefault('body', {'k': 'CompoundStmt', 'c': []})
                tr.st_list = lambda *_: None
                try: h, o = tr.run()
                except Unsupported as e: continue
                finally: c.external = was
                ext.append((h, fs[0]))
    pre = prog.text_sub(mod.PRELUDE)
    recs = prog.emit_records()
    for r in recs: add(r)
    for bs, nm in prog.lits.items():
        add(f'pub open spec fn {nm}() -> Str {{ seq![' + ', '.join(f'{b}int' for b in bs) + '] }')
    # what the specifications talk about although no function (left) does
    for nm in sorted(set(re.findall(r'\bu_(?:isa_\w+|elements)_1\b', pre)) - set(prog.uninterp)): prog.uninterp[nm] = (['int'], 'Seq<int>' if nm == 'u_elements_1' else 'bool')
    for nm, (a, rt) in prog.uninterp.items():
        add(f'pub uninterp spec fn {nm}(' + ', '.join(f'a{i}: {t}' for i, t in enumerate(a)) + f') -> {rt};')
    add(pre, ('prelude', '', 0, ''))
    for h, f in ext:
        for ind, t, l in h: add('    ' * ind + t)
        add('{ unimplemented!() }')
    for r, head, out, f in bodies:
        for ind, t, l in head: add('    ' * ind + t, (r.name, f['file'], l, t))
        add('{')
        for ind, t, l in out: add('    ' * ind + t, (r.name, f['file'], l, t))
        add('}')
    if vac:
        for r, head, out, f in bodies:
            c = contracts[r.key]
            vn = prog.vname(f)
            for ind, t, l in head:
                if t.strip() == 'ensures': break
                add('    ' * ind + t.replace(f'fn {vn}(', f'fn vac_{vn}('))
            add('{'); add('proof { assert(false); } // VAC', ('vac:' + r.name, f['file'], 0, 'VAC')); add('return arbitrary_exec_();'); add('}')
        add('#[verifier::external_body] fn arbitrary_exec_<T>() -> T { unimplemented!() }')
        add('proof fn vac_axioms_() { assert(false); } // VAC', ('vac:axioms', '', 0, 'VAC'))
    add('} // verus!')
    return prog, results, L, org

def contracts_of_call(prog, contracts, t):
    m = re.match(r'let call\d+_ = (f_\w+)\(', t)
    for w, c in contracts.items():
        fs = prog.find_fns(w)
        if fs and prog.vname(fs[0]) == m.group(1): return c.requires
    return []

def run_verus(path, rlimit=40, timeout=600, extra=()):
    t = time.time()
    cmd = [VERUS, path, '--crate-type=lib', '--output-json', '--time', '--error-format=json', '--rlimit', str(rlimit), '--multiple-errors', '20', '--triggers-mode', 'silent', '--num-threads', '8', *extra]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return {'timeout': True, 'errors': [], 'json': {}, 'wall': time.time() - t, 'raw': 'timeout', 'cmd': ' '.join(cmd)}
    errs = []
    raw = []
    for line in err.split('\n'):
        if not line.startswith('{'):
            if line.strip(): raw.append(line)
            continue
        try: d = json.loads(line)
        except ValueError: continue
        raw.append(d.get('rendered') or d.get('message', ''))
        if d.get('level') == 'error' and d.get('spans'):
            errs.append({'msg': d['message'], 'spans': [(s['line_start'], s['is_primary'], s.get('label') or '') for s in d['spans']], 'text': d.get('rendered', '')})
        elif d.get('level') == 'error' and 'aborting' not in d['message']:
            errs.append({'msg': d['message'], 'spans': [], 'text': d.get('rendered', '')})
    try: j = json.loads(out)
    except ValueError: j = {}
    return {'timeout': False, 'errors': errs, 'json': j, 'wall': time.time() - t, 'raw': '\n'.join(raw), 'cmd': ' '.join(cmd)}

def prove(mod, dumpfiles, workdir, vac=True, rlimit=None):
    os.makedirs(workdir, exist_ok=True)
    rlimit = rlimit or getattr(mod, 'RLIMIT', 40)
    drop, gone, bare, first = {}, {}, None, None
    while True:
        prog, results, L, org = emit(mod, dumpfiles, vac, drop=drop, gone=gone, bare=bare or ())
        path = os.path.join(workdir, mod.__name__.split('.')[-1].lower() + '.rs')
        with open(path, 'w') as f: f.write('\n'.join(L) + '\n')
        res = run_verus(path, rlimit)
        vr = res['json'].get('verification-results', {})
        if bare is None and not res['timeout'] and vr and vr.get('errors', 0) > 0:
            # a function that fails is tried without the annotations of its loops: those of a rewritten loop may be found out anew
            byname = {r.name: r for r in results if r.status == 'translated'}
            bare = {byname[o[0]].key for e in res['errors'] for line, _, _ in e['spans'] for o in [org.get(line)] if o and o[0] in byname and mod.CONTRACTS[byname[o[0]].key].loops}
            if bare:
                first = (prog, results, L, org, path, res)
                continue
        if first is not None and bare:
            failed = {o[0] for e in res['errors'] for line, _, _ in e['spans'] for o in [org.get(line)] if o}
            fine = {r.key for r in results if r.status == 'translated' and r.name not in failed} if not res['timeout'] and vr and (vr.get('success') or vr.get('errors', 0) > 0) else set()
            if not bare <= fine:
                bare &= fine       # keep the annotations of those that need them
                if not bare:
                    prog, results, L, org, path, res = first
                    with open(path, 'w') as f: f.write('\n'.join(L) + '\n')
                    vr = res['json'].get('verification-results', {})
                    break
                first = None
                continue
        if res['timeout'] or (vr and (vr.get('success') or vr.get('errors', 0) > 0)) or len(drop) > 12 or sum(map(len, gone.values())) > 24: break
        # a function whose text does not fit its contract any more (a name of a loop that is gone): without an answer, the others are proved
        byname = {r.name: r for r in results if r.status == 'translated'}
        new = {}
        for e in res['errors']:
            for line, prim, label in e['spans']:
                o = org.get(line)
                if o and prim and o[0] in byname: new.setdefault(byname[o[0]].key, []).append(e['msg'])
        if not new: break
        for key, msgs in new.items():
            names = {m.group(1) for m in (re.match(r'cannot find value `(\w+)` in this scope', x) for x in msgs) if m}
            # first without the annotations that mention those names
            if len(names) and names - gone.get(key, set()): gone.setdefault(key, set()).update(names)
            else: drop[key] = msgs[0]
    out = {'prog': prog, 'fns': results, 'verus': res, 'path': path, 'org': org, 'vac_bad': [], 'internal': []}
    byname = {}
    for r in results: byname.setdefault(r.name, r)
    vr = res['json'].get('verification-results', {})
    out['vr'] = vr
    ran = bool(vr) and not res['timeout'] and (vr.get('success') or vr.get('errors', 0) > 0)
    vac_failed = set()
    vm = bool(res['errors']) and not ran
    for e in res['errors']:
        hit = None
        text = ''
        for line, prim, label in e['spans']:
            o = org.get(line)
            if o and o[0].startswith('vac:'): vac_failed.add(o[0]); hit = 'vac'; break
        if hit == 'vac': continue
        # location inside the function body: prefer body lines
        cand = [(org.get(l), prim, label, l) for l, prim, label in e['spans']]
        fn = next((c[0][0] for c in cand if c[0] and c[0][0] in byname), None)
        # for precondition failures the callee's REQ line may come first: choose the span of the call
        body = [c for c in cand if c[0] and c[0][0] in byname and not re.search(r'// (REQ|ENS)', c[0][3])]
        if body: fn = body[0][0][0]
        desc = []
        for o, prim, label, l in cand:
            if o: desc.append(f'{os.path.basename(o[1])}:{o[2]}: {L[l-1].strip()[:300]}' + (f'  [{label}]' if label else ''))
            else: desc.append(f'{L[l-1].strip()[:200] if 0 < l <= len(L) else "?"}  [{label}]')
        rec = {'msg': e['msg'], 'where': desc, 'fn': fn}
        if fn is None or not ran: out['internal'].append(rec)
        else:
            r = byname[fn]
            r.errors.append(rec)
    for r in results:
        if r.status != 'translated': continue
        if not ran: r.status, r.why = 'notrun', (res['raw'][-1500:] if not res['timeout'] else 'verifier timeout')
        elif any('rlimit' in e['msg'].lower() or 'resource limit' in e['msg'].lower() or 'timed out' in e['msg'].lower() for e in r.errors) and all('esource limit' in e['msg'] or 'rlimit' in e['msg'].lower() or 'recommend' in e['msg'] for e in r.errors):
            r.status, r.why = 'timeout', 'resource limit exceeded'
        elif r.errors and getattr(r, 'key', '') in gone:
            r.status, r.why = 'unsupported', 'the annotations do not fit: no ' + ', '.join(sorted(gone[r.key])) + '; ' + r.errors[0]['msg']
        elif r.errors and getattr(r, 'loops', (0, 0))[0] != getattr(r, 'loops', (0, 0))[1]:
            # the loops are not those that the annotations were written for: what fails may be only their induction
            r.status, r.why = 'unsupported', 'the annotations do not fit: %d loops instead of %d; %s' % (r.loops[1], r.loops[0], r.errors[0]['msg'])
        elif r.errors: r.status, r.why = 'failed', r.errors[0]['msg']
        else: r.status = 'proved'
    if vac and ran:
        names = ['vac:axioms'] + ['vac:' + r.name for r in results if r.status in ('proved', 'failed', 'timeout')]
        out['vac_bad'] = [n for n in names if n not in vac_failed]
    out['ran'] = ran
    return out

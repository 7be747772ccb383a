"""C09's deciding step: every function of /repo's current source against its (inferred) safety contract, and what fails
against the list of obligations that are known not to be proved on the committed tree (contracts/c09_base.json)."""
import os, sys, re, json, time, glob, collections, hashlib
import build
from vc import safety as S
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'contracts', 'c09_base.json')

def leaf(o):
    """what fails, without the path on which it is reached"""
    w = re.sub(r'\s*\(line \d+\)', '', o['why'])
    w = re.sub(r'^(precondition of [^:]*(::[^:]*)*:\s+)+', '', w)
    return f"{o['kind'] if o['kind'] != 'requires' else 'null'}: {w}".strip()
def srcs(): return list(build.plugin_srcs()) + ['src/ClazyStandaloneMain.cpp', 'src/ClazyClangTidyModule.cpp']
def rel(f): return os.path.relpath(os.path.realpath(f), os.path.realpath(build.REPO)) if f.startswith('/') else f

def infer(progress=None, export=None):
    import importlib
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), 'contracts'))
    c09 = importlib.import_module('c09')
    t0 = time.time()
    ds = [json.load(open(f)) for f in build.dumps(srcs())]
    t1 = time.time()
    w = S.World(ds, c09, '/usr/lib/llvm-20/include')
    S.EXPORT = export
    res = S.run(w, jobs=build.JOBS, progress=progress)
    return res, dict(extraction_s=round(t1 - t0, 1), inference_s=round(time.time() - t1, 1))

def summary(res):
    """{file: Counter of the leaves of its unproved obligations}, one count per place"""
    d = {}
    for r in res.values():
        for o in r['obls']:
            if not o['ok']: d.setdefault(rel(r['file']), set()).add((leaf(o), r['n'].split('::')[-1] + f"@{o['line']}" + o['why']))
    return {f: collections.Counter(x for x, _ in s) for f, s in d.items()}
def base(): return json.load(open(BASE))
def new_failures(res):
    """the unproved obligations beyond those of the committed list, per file: [(file, leaf, [obligations])]"""
    b = base()['unproved']; out = []
    for f, c in sorted(summary(res).items()):
        for l, n in sorted(c.items()):
            if n > b.get(f, {}).get(l, 0):
                out.append((f, l, [dict(function=r['n'], at=f"{rel(o['file'])}:{o['line']}", obligation=f"{o['kind']}: {o['why']}") for r in res.values() if rel(r['file']) == f
                                   for o in r['obls'] if not o['ok'] and leaf(o) == l]))
    return out
def outcome(res, times):
    new = new_failures(res)
    obls = [o for r in res.values() for o in r['obls']]
    full = [r for r in res.values() if not r['err'] and all(o['ok'] for o in r['obls'])]
    gave = sorted(r['n'] for r in res.values() if r['err'])
    # contracts whose precondition no caller discharges: nobody calls them in /repo
    called = {c for r in res.values() for c in r['used']}
    orphan = sorted({r['n'] for u, r in res.items() if r['req'] and u not in called and not r['entry']})
    unchecked = collections.Counter(x for r in res.values() for x in r['unchecked'])
    ev = {'functions': len(res), 'functions_fully_proved': len(full), 'obligations': len(obls), 'discharged': sum(o['ok'] for o in obls), 'backend': 'Z3 (Python API), one query per obligation and per candidate of a postcondition or invariant',
          'queries': sum(r['queries'] for r in res.values()), 'queries_without_answer': sum(r['unknown'] for r in res.values()), 'by_kind': dict(collections.Counter(o['kind'] for o in obls)),
          'preconditions_inferred': sum(len(r['req']) for r in res.values()), 'postconditions_inferred': sum(r['nens'] for r in res.values()), 'solver_s': round(sum(r['seconds'] for r in res.values()), 1), **times,
          'functions_not_fully_proved': {r['n'] + f" ({rel(r['file'])}:{r['line']})": [f"{o['kind']}: {o['why']} (line {o['line']})" for o in r['obls'] if not o['ok']] for r in res.values() if not r['err'] and not all(o['ok'] for o in r['obls'])},
          'functions_under_contract': sorted(f"{r['n']} ({rel(r['file'])}:{r['line']}): {sum(o['ok'] for o in r['obls'])}/{len(r['obls'])} obligations, {len(r['req'])} preconditions, {r['nens']} postconditions" for r in res.values()),
          'gave_up': gave, 'new_failures': [dict(file=f, obligation=l, failing=o) for f, l, o in new]}
    return {'new': new, 'proved': len(full), 'functions': len(res), 'obligations': ev['obligations'], 'discharged': ev['discharged'], 'noanswer': len(gave), 'evidence': ev,
            'assumptions': [f'the inferred precondition of {n} is assumed: nothing in /repo calls it' for n in orphan] + [f'not checked ({k} places): {x}' for x, k in unchecked.most_common(40)]}
if __name__ == '__main__':
    res, t = infer(lambda l, n: None)
    print(t)
    if '--write' in sys.argv:
        s = summary(res)
        json.dump({'what': 'obligations that the safety contracts do not discharge on the committed tree (file, obligation, how often); each is exercised by the compiled runs only',
                   'unproved': {f: dict(sorted(c.items())) for f, c in sorted(s.items())},
                   'noanswer': sorted(r['n'] for r in res.values() if r['err'])}, open(BASE, 'w'), indent=1)
        print(sum(sum(c.values()) for c in s.values()), 'unproved')
    else:
        for f, l, os_ in new_failures(res): print(f, l, *os_, sep='\n    ')

#!/usr/bin/env python3
"""check.py PID [--thorough]: decide one property of /repo's current tree.

 1. mechanical extraction of the functions under contract from /repo (clang AST -> JSON -> Verus)
 2. Verus discharges every obligation (plus vacuity probes)
 3. the compiled real code is run against an independent oracle (replay of failing inputs;
    labelled bounded stand-in for functions outside the verifier's reach)
Exit 0 / 1 with a VIOLATION line.  See DESIGN.md, "Outcome policy"."""
import sys, os, time, json, importlib, importlib.util, random, shutil, traceback, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
import build

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f'{pid}-{seed}')
        self.fails = []          # (key, text, replay object)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.rule = ''
        self.deadline = None
        self.scratch = os.path.join(build.B, 'scratch', f'{pid}-{os.getpid()}')
        shutil.rmtree(self.scratch, ignore_errors=True); os.makedirs(self.scratch)
    def left(self): return self.deadline - time.time()
    def fail(self, key, text, replay):
        if len(self.fails) < 2000: self.fails.append((key, text, replay))
    def case(self, ident, sample=None):
        self.evals += 1
        self.distinct.add(hashlib.sha1(repr(ident).encode()).digest()[:8])
        if sample is not None and len(self.samples) < 6: self.samples.append(sample)
    def known_keys(self): return {f['key'] for f in load_known() if f['property'] == self.pid}
    def fresh_fail(self):
        kk = self.known_keys()
        return any(k not in kk for k, _, _ in self.fails)

def load_known():
    try: return json.load(open(os.path.join(VERIF, 'known_findings.json'))).get('open', [])
    except FileNotFoundError: return []

def write_replay(pid, obj):
    d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{h}.json')
    with open(p, 'w') as f: json.dump(obj, f, indent=1, default=str)
    return p

def prove_module(modname, log):
    from vc import driver
    m = importlib.import_module('contracts.' + modname)
    dumps = build.dumps(m.SOURCES)
    o = driver.prove(m, dumps, os.path.join(build.B, 'vc', modname))
    bad = [r for r in o['fns'] if r.status in ('failed', 'timeout', 'notrun')]
    if bad and o['ran']:
        # a solver hiccup must not become an alarm: same obligations, four times the resources
        log.append(f'{modname}: retry with larger rlimit because of {[r.name for r in bad]}')
        o2 = driver.prove(m, dumps, os.path.join(build.B, 'vc', modname), rlimit=4 * getattr(m, 'RLIMIT', 40))
        if o2['ran']: o = o2
    src = open(o['path']).read()
    code = re.sub(r'//[^\n]*', '', src)
    lib = open(os.path.join(HERE, 'vc', 'lib.rs')).read()
    o['assumes'] = len(re.findall(r'\bassume\s*\(|\badmit\s*\(|external_body|assume_specification|\baxiom\b', code)) 
    o['module'] = m
    return o

def main():
    pid = sys.argv[1].upper()
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = json.load(open(os.path.join(VERIF, 'tools', 'checks.json')))[pid]
    if spec.get('safety') and not importlib.util.find_spec('z3'):
        # Z3's Python API is in the tooling environment
        os.execvp('python3-vt', ['python3-vt'] + sys.argv)
    log = []
    proofs = []
    for modname in spec.get('contracts', []):
        proofs.append((modname, prove_module(modname, log)))
    saf = None     # contracts about safety, inferred for every function of /repo
    if spec.get('safety'):
        from vc import safecheck
        res, times = safecheck.infer()
        saf = safecheck.outcome(res, times)
    tp = time.time() - t0
    failed, unsup, proved = [], [], []
    for modname, o in proofs:
        for r in o['fns']:
            (proved if r.status == 'proved' else failed if r.status == 'failed' else unsup).append((modname, r))
    vacbad = [(m, x) for m, o in proofs for x in o['vac_bad']]
    internal = [(m, e) for m, o in proofs for e in o['internal']]
    if vacbad:
        unsup += [(m, type('R', (), dict(name=x, status='vacuous', why='vacuity probe did not fail', obl=0, errors=[], file='', line=0))) for m, x in vacbad]
        bad = {x.split(':', 1)[1] for _, x in vacbad}
        proved = [] if 'axioms' in bad else [(m, r) for m, r in proved if r.name not in bad]
    if internal and any(o['ran'] for _, o in proofs):
        # a lemma of the contract file itself failed: it may depend on generated definitions
        failed += [(m, type('R', (), dict(name='lemma', status='failed', why=e['msg'], obl=1, errors=[e], file='', line=0))) for m, e in internal]
    if saf:
        R_ = lambda **k: type('R', (), k)
        failed += [('safety', R_(name=f, status='failed', why=f'{l} ({len(o)} places)', obl=1, errors=o[:6], file=f, line=0)) for f, l, o in saf['new']]
    for m, r in failed: print(f'proof: {m}: {r.name}: FAILED ({r.why})')
    for m, r in unsup: print(f'proof: {m}: {r.name}: {r.status}: {r.why[:300]}')
    if saf: print(f"proof: safety: {saf['proved']} of {saf['functions']} functions proved, {saf['discharged']} of {saf['obligations']} obligations, {len(saf['new'])} new failures, {saf['noanswer']} functions without an answer", flush=True)
    print(f'proof: {len(proved)} functions proved, {len(failed)} failed, {len(unsup)} without an answer, {tp:.1f}s', flush=True)
    # --- the real code against the oracle
    ctx = Ctx(pid, tier, seed)
    nat = importlib.import_module('native.' + spec['native']) if spec.get('native') else None
    if nat:
        base = spec.get('budget', 60)
        b = base * (10 if thorough else 1)
        if failed: b = max(b, min(240, 4 * base))
        # what the run needs is built first: the budget is for running
        for w, a in sorted(set(re.findall(r"build\.(standalone|lib|tidy|native)\('?(\w*)'?\)", open(nat.__file__).read()))): getattr(build, w)(*([a] if a else []))
        if 'R.batch' in open(nat.__file__).read(): build.standalone()
        ctx.deadline = time.time() + b
        ctx.deep = bool(failed) or thorough
        ctx.suspects = [r.name for _, r in failed + unsup]
        ctx.suspect_files = [f for f, _, _ in saf['new']] if saf else []
        nat.run(ctx)
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    known = {f['key']: f for f in load_known() if f['property'] == pid}
    viol = 0
    seen = set()
    for key, text, rep in ctx.fails:
        if key in seen: continue
        seen.add(key)
        if key in known:
            print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')
            continue
        viol += 1
        if viol <= 5:
            p = write_replay(pid, {'property': pid, 'key': key, 'what': text, 'input': rep, 'seed': seed,
                                   'failed_obligations': [dict(function=r.name, error=e) for _, r in failed for e in r.errors[:3]]})
            print(f'  {key}: {text}')
            print(f'VIOLATION property={pid} replay={p}')
    for key in known:
        if key not in seen: print(f'note: known finding {key} was not reproduced by this run')
    if not viol and failed:
        viol = len(failed)
        p = write_replay(pid, {'property': pid, 'failed_obligations': [
            {'module': m, 'function': r.name, 'at': f'{r.file}:{r.line}', 'errors': r.errors} for m, r in failed],
            'verifier_output': {m: o['verus']['raw'][-6000:] for m, o in proofs}, 'verus_file': {m: o['path'] for m, o in proofs},
            **({'safety_obligations': [dict(file=f, obligation=l, failing=o) for f, l, o in saf['new']]} if saf else {})})
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
    # --- evidence
    obl = sum(max(1, r.obl) for m, r in proved + failed + unsup if m != 'safety')
    dis = sum(max(1, r.obl) for _, r in proved)
    trusted = ['clang 20 AST (extraction)', 'tools/extract/cxxast.cpp, tools/vc (translation to Verus)', 'Verus 0.2026.09.13 + Z3', 'tools/vc/lib.rs']
    assumptions = ['machine integers are treated as mathematical integers (the functions index and count only; wrap-around is not modelled)',
                   'output to llvm::raw_ostream inside functions under contract is dropped from the proof (it is observed by the compiled runs)']
    inl = set()
    for _, o in proofs:
        pr = o['prog']
        trusted += ['model: ' + x for x in sorted(pr.model_used)]
        assumptions += ['uninterpreted, assumed to be a function of its arguments: ' + x for x in sorted(pr.assumed_pure)]
        assumptions += ['not checked: ' + x for x in sorted(pr.unchecked)]
        inl |= pr.inlined
    assumptions += spec.get('assumptions', [])
    if saf:
        obl, dis = obl + saf['obligations'], dis + saf['discharged']
        trusted = (trusted if proofs else ['clang 20 AST (extraction)', 'tools/extract/cxxast.cpp']) + ['tools/vc/safety.py (contract inference, symbolic execution of the extracted functions), Z3', 'contracts/c09.py (what clang, llvm and the standard library document about null and ranges)']
        if not proofs: assumptions = ['machine integers are treated as mathematical integers (wrap-around is not modelled)']
        assumptions += saf['assumptions']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'wall_s': round(time.time() - t0, 2), 'violations': viol,
          'assumptions': sorted(set(assumptions)),
          'coverage': {
              'obligations': obl, 'discharged': dis,
              'checker_cmd': ' ; '.join([o['verus']['cmd'] for _, o in proofs] + ([f'tools/check.py {pid} (tools/vc/safecheck.py: Z3 through its Python API)'] if saf else [])) or 'none',
              'trusted_base': sorted(set(trusted)),
              'functions_under_contract': [{'module': m, 'name': r.name, 'at': f'{r.file}:{r.line}', 'status': r.status, 'obligations': r.obl, 'backend': 'Verus/Z3',
                                            **({'why': r.why[:400]} if r.status != 'proved' else {})} for m, r in proved + failed + unsup],
              'verus_items_verified': {m: o['vr'].get('verified') for m, o in proofs},
              'solver_wall_s': {m: round(o['verus']['wall'], 2) for m, o in proofs},
              **({'safety_contracts': saf['evidence']} if saf else {}),
              'inlined_functions': sorted(inl),
              'vacuity_probes_not_failing': [x for _, x in vacbad],
              'bounded_functions': [r.name for _, r in unsup] + spec.get('bounded', []),
              'proof_log': log,
              'evaluations': ctx.evals, 'distinct_nontrivial': len(ctx.distinct),
              'rule': ctx.rule or 'none', 'samples': ctx.samples or ['(no compiled run)'],
              'compiled_run_notes': ctx.notes,
          }}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid}: {tier} obligations {dis}/{obl}, compiled runs {ctx.evals} ({len(ctx.distinct)} distinct), violations {viol}, {time.time()-t0:.1f}s')
    return 1 if viol else 0

if __name__ == '__main__':
    sys.exit(main())

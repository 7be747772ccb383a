import sys, os, importlib
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif')
import build
from vc import driver
m = importlib.import_module('contracts.' + sys.argv[1])
d = build.dumps(m.SOURCES)
o = driver.prove(m, d, build.B + '/vc/' + sys.argv[1], vac='-v' in sys.argv)
print(o['path'], 'ran', o['ran'], {k: v for k, v in o['vr'].items() if k in ('verified','errors','success')}, f"{o['verus']['wall']:.1f}s", 'vacbad', o['vac_bad'])
for r in o['fns']:
    print(f'{r.status:12} {r.name} obl={r.obl} {r.why[:300] if r.status not in ('proved','notrun') else ""} {getattr(r,"note","")}')
    for e in r.errors[:8]:
        print('     ', e['msg']); [print('          ', w) for w in e['where']]
for e in o['internal'][:10]:
    print('INTERNAL', e['msg']); [print('          ', w) for w in e['where'][:6]]
if not o['ran']:
    [print(e['text'][:800]) for e in o['verus']['errors'][:8]] or print(o['verus']['raw'][-2000:])
if '-a' in sys.argv:
    print('inlined', o['prog'].inlined); print('models', sorted(o['prog'].model_used)); print('pure', o['prog'].assumed_pure); print('unchecked', o['prog'].unchecked)

#!/usr/bin/env python3
"""props/*.json (one file per property: statement + check settings) -> properties.jsonl, MANIFEST.json, tools/checks.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, man, na = [], {}, [], []
for f in sorted(glob.glob(V + '/props/*.json')):
    d = json.load(open(f))
    p = d['property']; props.append(p); c = d.get('check'); i = p['id']
    p['anchors']['mechanism'] = [m if isinstance(m, dict) else {'name': m} for m in p['anchors']['mechanism']]
    if 'not_applicable' in d: na.append({'property': i, 'reason': d['not_applicable']}); continue
    checks[i] = {k: v for k, v in c.items() if k not in ('technique', 'level_note', 'theorems')}
    man.append({'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'python3 tools/check.py {i} --thorough',
                'technique': c.get('technique', 'contract-based deductive verification (Verus on code mechanically extracted from /repo)'),
                'level': c['level'], 'level_note': c['level_note'], **({'theorems': c['theorems']} if 'theorems' in c else {})})
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
json.dump(checks, open(V + '/tools/checks.json', 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': man, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(man), 'checks')

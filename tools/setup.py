#!/usr/bin/env python3
"""Build everything the checks need from the committed files and /repo's current tree (content-hash cached in .build)."""
import os, sys, json, importlib, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
import build
t = time.time()
build.extractor(); build.standalone(); build.tidy()
spec = json.load(open(os.path.join(HERE, 'checks.json')))
srcs = set()
for c in spec.values():
    for m in c.get('contracts', []): srcs |= set(importlib.import_module('contracts.' + m).SOURCES)
build.dumps(sorted(srcs))
for f in sorted(os.listdir(os.path.join(build.VERIF, 'native'))):
    if f.endswith('.cpp'): build.native(f[:-4])
print(f'setup done in {time.time()-t:.0f}s')

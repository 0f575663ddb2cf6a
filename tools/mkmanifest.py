#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif')
import checks
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = 'symbolic execution of the real code (LLVM IR regenerated from /repo at every run), each assertion decided by z3 over bit-vectors and floats; counterexamples replayed natively'
NA = {}
cl = []
for p in P:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cl.append(dict(property=i, quick_cmd=f'./check.py {i} quick', thorough_cmd=f'./check.py {i} thorough', technique=c.get('technique', T), level=c.get('level', 'model_checking'), level_note=('Bounded: ' + c['bounds'] + ('. Outside: ' + c['outside'] if c.get('outside') else ''))))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check under construction')) for p in P if p['id'] not in checks.CHECKS]
json.dump(dict(version=1, setup_cmd='./check.py --setup', checks=cl, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)

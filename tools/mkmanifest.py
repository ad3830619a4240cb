#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from registry import REG
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in REG:
        q = [r for r in REG[i]['runs'] if not r.get('thorough_only')]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
            technique='path-exhaustive symbolic execution of the compiled library code (LLVM IR instrumented from /repo at every run), Z3 deciding branches and assertions, counterexamples replayed natively',
            level='model_checking',
            level_note='Bounded: every value of the symbolic inputs within: ' + '; '.join(dict.fromkeys(r.get('bounds', '') for r in q if r.get('bounds')))[:1500] +
                '. Trusted: clang/LLVM 18 front end, the instrumentation pass and runtime in engine/ (cross-checked natively on sampled paths), Z3. ' + REG[i].get('note', '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks: the checks compile /repo unmodified', source_commits=[]), checks=checks, not_applicable=na,
         notes='See DESIGN.md. The fix: commits in /repo repair defects the checks found; known_findings.json lists them.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')

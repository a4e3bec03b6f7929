#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, the harness files present, and the not-applicable list below."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/na.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']; hs = sorted(glob.glob(f'{V}/harness/{i}_*.cpp'))
    if i in NA or not hs: na.append(dict(property=i, reason=NA.get(i, 'no check built yet'))); continue
    b = []
    for h in hs:
        for l in open(h):
            m = re.match(r'//@\s*bounds:\s*(.*)$', l)
            if m: b.append(os.path.basename(h)[:-4].split('_', 1)[1] + ': ' + m.group(1).strip())
    checks.append(dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'env VERIF_TIER=thorough python3 run.py {i}',
        technique='symbolic execution of the compiled headers (LLVM IR, engine osym) with Z3 deciding every branch, assertion and memory bound; counterexamples replayed natively',
        level='model_checking', level_note='Exhaustive over all symbolic values within the stated bounds: ' + ' | '.join(b)))
json.dump(dict(version=1, setup_cmd='make -s -j4 -C engine', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

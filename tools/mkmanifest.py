#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
meta = json.load(open(os.path.join(root, 'tools', 'levels.json')))
NA = meta.get('not_applicable', {})
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(root, f)):
        m = meta['checks'].get(i, {})
        checks.append(dict(property=i, quick_cmd='python3-vt ' + f,
                           thorough_cmd='VERIF_TIER=thorough python3-vt ' + f,
                           evidence_file='evidence/%s.json' % i,
                           technique=m.get('technique', 'symbolic execution of the real functions, obligations decided by the z3 SMT solver'),
                           level='model_checking',
                           level_note=m.get('note', meta['default_note'])))
    else:
        na.append(dict(property=i, reason='check not built yet'))
man = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
           hooks=dict(guard='none', enable='no hooks: the checks import /repo unchanged and stub only the environment (clock, stdout, file system location)', source_commits=[]),
           notes='Bounded results only: every claim is for the bounds in the evidence file. See DESIGN.md.')
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')

#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'types': ('explicit-state enumeration of (type, value) pairs on the real derive macro, serde, zod and tsc', 'Every type of a generated corpus with every value within the edit bound; nothing is sampled. Trusts zod 3, tsc and serde_json as reference.'),
}
CLAIM = {'C01': 'types', 'C02': 'types', 'C03': 'types', 'C04': 'types', 'C05': 'types'}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
import sys
if os.path.exists(os.path.join(V, 'tools/claims.json')):
    c = json.load(open(os.path.join(V, 'tools/claims.json')))
    T.update({k: tuple(v) for k, v in c['techniques'].items()})
    CLAIM.update(c['claims'])
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. No hooks in /repo are needed: everything is reached through public interfaces.'}
for p in props:
    if p in CLAIM:
        t, n = T[CLAIM[p]]
        m['checks'].append({'property': p, 'quick_cmd': f'bin/check {p}', 'thorough_cmd': f'bin/check {p} thorough', 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

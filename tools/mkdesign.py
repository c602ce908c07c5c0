#!/usr/bin/env python3
"""Rewrites the sections of DESIGN.md that follow from known_findings.jsonl and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
head = open(p).read().split('## Defects found')[0]
rows = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl'))]
o = ['## Defects found', '', 'Repaired (one `fix:` commit each; the check that found it passes on the repaired tree and fails without it):', '']
o += [f"* {r['commit']} ({', '.join(r['properties'])}): {r['what']}" for r in rows if r['status'] == 'fixed']
o += ['', 'Recorded (`known_findings.jsonl`, cases in `known/*.txt`; any other case of the same property is still a violation).', 'Most are pinned by stable tests that compare the generated text, or a repair would change what every client looks like:', '']
o += [f"* {r['id']} ({', '.join(r['properties'])}): {r['what']}" for r in rows if r['status'] != 'fixed']
o += ['', '## Planted changes', '', '`seeded/<id>/`; every one builds, passes the stable tests, and has a demonstration. "missed at first" is what the checks were strengthened for.', '', '| change | needs | caught by |', '|---|---|---|']
notes = json.load(open(os.path.join(V, 'tools/seednotes.json')))
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    o.append(f"| {i} | {m['needs']} | {m['property']}{' (missed at first: ' + notes[i] + ')' if i in notes else ''} |")
o += ['', open(os.path.join(V, 'tools/designtail.md')).read().rstrip()]
open(p, 'w').write(head + '\n'.join(o) + '\n')

#!/usr/bin/env python3
"""new.py SPECFILE: writes seeded/<id>/ from a python spec: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust, check=js)]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
K = os.path.dirname(os.path.abspath(__file__))
ns = {"K": K}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    W = '/tmp/seedmk'
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.run(['git', 'clone', '-q', os.environ.get('ZOD_REPO', '/repo'), W], check=True)
    for f, old, new in s['edits']:
        t = open(f'{W}/{f}').read()
        assert t.count(old) == 1, (s['id'], f, old, t.count(old))
        open(f'{W}/{f}', 'w').write(t.replace(old, new))
    p = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    assert p
    open(f'{d}/patch.diff', 'w').write(p)
    shutil.rmtree(W)
    if 'main' in s: open(f'{d}/main.rs', 'w').write(s['main'])
    if 'check' in s: open(f'{d}/check.cjs', 'w').write(s['check'])
    for n, t in s.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
    if 'demo' in s: open(f'{d}/demo.sh', 'w').write(s['demo'])
    else: shutil.copy(f'{K}/demo_rust.sh', f'{d}/demo.sh')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print(s['id'])

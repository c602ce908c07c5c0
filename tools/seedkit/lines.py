#!/usr/bin/env python3
"""lines.py: which planted changes touch lines of the original repository (blame boundary), not only ones added since"""
import os, re, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get('ZOD_REPO', '/repo')
for d in sorted(glob.glob(V + '/seeded/*')):
    f, n, ok = None, 0, 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            b = subprocess.run(['git', 'blame', '-s', f], cwd=R, capture_output=True, text=True).stdout.split('\n')
        elif m := re.match(r'@@ -(\d+)', l):
            n = int(m.group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            ok += b[n].startswith('^') and bool(re.search(r'\w', l)); n += 1
        elif l.startswith(' '):
            n += 1
    print(os.path.basename(d), ok, '' if ok else '<<< only added lines')

#!/usr/bin/env python3
"""verify.py ID...: confirms seeded changes in a scratch copy: applies, builds, stable tests pass, demo ok/bad."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def sh(c, cwd=None, t=600):
    r = subprocess.run(['timeout', str(t), 'bash', '-c', c], cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('stable', stable)
W = '/tmp/seedrepo'
if os.path.exists(W): shutil.rmtree(W)
sh(f'cp -a {os.environ.get("ZOD_REPO", "/repo")} {W}')
sh('git checkout -q -- . && git clean -fdq', W)
for i in sys.argv[1:]:
    d = f'{V}/seeded/{i}'
    r0, o0 = sh(f'bash {d}/demo.sh', W)
    ra, oa = sh(f'git apply {d}/patch.diff', W)
    if ra: print(i, 'DOES NOT APPLY', oa[-300:]); continue
    sh("mkdir -p /tmp/seedvp && for f in env test build; do sed 's#^cd /repo#cd /tmp/seedrepo#; s#/opt/vp/env.sh#/tmp/seedvp/env.sh#' /opt/vp/$f.sh > /tmp/seedvp/$f.sh; done")
    sh('rm -f /tmp/seedres.json; bash /tmp/seedvp/build.sh', None, 900)
    rt, ot = sh('bash /tmp/seedvp/test.sh /tmp/seedres.json', None, 900)
    res = json.load(open('/tmp/seedres.json'))
    p = res.get('passed') or []
    miss = [s for s in stable if s not in p]
    r1, o1 = sh(f'bash {d}/demo.sh', W)
    sh('git checkout -q -- .', W)
    ok = r0 == 0 and not miss and r1 != 0
    print(i, 'OK' if ok else 'BAD', 'clean', r0, 'patched', r1, 'missing', miss[:4])
    if r0: print(o0[-1500:])
    if not ok or '-v' in os.environ.get('F', ''): print(o1[-800:])
shutil.rmtree(W)

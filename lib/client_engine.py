"""C14 to C16: stateless exploration of the real generated client (see client/)."""
import json, os, subprocess
import vc, server_engine

N = 8
MODULES = '/opt/veriftools/node/node_modules'


def build():
    """The generated module of the backend in server/, as JavaScript."""
    ok, out = server_engine.build()
    if not ok:
        return None, 'the harness, which uses only the public interface, does not compile: ' + vc.errors(out)
    d = os.path.join(vc.BUILD, 'client')
    os.makedirs(d, exist_ok=True)
    ts, js = os.path.join(d, 'module.ts'), os.path.join(d, 'module.cjs')
    r = subprocess.run([os.path.join(vc.TARGET, 'debug/server-mc'), 'module'], capture_output=True, text=True)
    if r.returncode:
        return None, 'the generator fails: ' + r.stderr[-800:]
    open(ts, 'w').write(r.stdout)
    r = subprocess.run(['node', os.path.join(vc.VERIF, 'client/transpile.cjs'), ts, js], capture_output=True, text=True, env=dict(os.environ, NODE_PATH=MODULES))
    if r.returncode:
        return None, 'the module is not TypeScript: ' + r.stderr[-800:]
    return js, ''


def check(prop):
    js, err = build()
    if not js:
        vc.finish(prop, 'model_checking', {'states': 0, 'transitions': 0}, [{'case': 'client|module', 'detail': err}])
    ps = [subprocess.Popen(['node', '--max-old-space-size=3000', os.path.join(vc.VERIF, 'client/explore.cjs'), js, prop, vc.TIER, str(i), str(N)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, NODE_PATH=MODULES)) for i in range(N)]
    fams, viol, samples, errs = {}, [], [], []
    for i, p in enumerate(ps):
        try:
            o, e = p.communicate(timeout=840 if vc.TIER == 'quick' else 7000)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = '', 'timeout'
        if p.returncode or not o:
            errs.append(f'shard {i}: exit {p.returncode} {e[-600:]}')
            continue
        o = json.loads(o)
        viol += o['violations']
        samples += o['samples']
        for f in o['families']:
            g = fams.setdefault(f['family'], {'depth': f['depth'], 'executions': 0, 'steps': 0, 'max_enabled': 0, 'seconds': 0})
            for k in ('executions', 'steps'):
                g[k] += f[k]
            for k in ('max_enabled', 'seconds'):
                g[k] = max(g[k], round(f[k], 1))
    tot = lambda k: sum(f[k] for f in fams.values())
    cov = {
        'states': tot('executions'), 'transitions': tot('steps'), 'traces_validated_against_impl': tot('executions'),
        'exhaustive': not viol and not errs, 'executions': tot('executions'), 'bound': fams, 'samples': samples[:3],
    }
    viol.sort(key=lambda v: len(v['case']))
    vc.finish(prop, 'model_checking', cov, viol, assumptions=[
        'WebSocket is scripted after the WHATWG states (connecting, open, closing, closed) and events; timers are virtual',
        'every sequence of enabled events up to the stated depth within the limits of its family (client/explore.cjs)',
    ], engine_errors=errs)

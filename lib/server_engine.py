"""C08 to C13: stateless exploration of the real server code under a controlled scheduler (see server/)."""
import json, os, resource, shutil, signal, subprocess
import vc, vendor

N = 8


def build():
    v = vendor.make()
    d = os.path.join(vc.BUILD, 'server')
    src = os.path.join(vc.VERIF, 'server')
    for f in os.listdir(os.path.join(src, 'src')):
        vc.write_if_changed(os.path.join(d, 'src', f), open(os.path.join(src, 'src', f)).read())
    vc.write_if_changed(os.path.join(d, 'Cargo.toml'), open(os.path.join(src, 'Cargo.toml.in')).read().replace('@REPO@', vc.REPO).replace('@VENDOR@', v))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy(os.path.join(vc.VERIF, 'lib/Cargo.lock.template'), lock)
    vc.build_lib(d)
    r = vc.cargo(d, [])
    return r.returncode == 0, r.stdout


def run(args, timeout):
    exe = os.path.join(vc.TARGET, 'debug/server-mc')
    ps = [subprocess.Popen([exe, *args[:2], str(i), str(N), *args[2:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) for i in range(N)]
    outs, errs = [], []
    import threading
    res = [None] * N

    def wait(i):
        try:
            o, e = ps[i].communicate(timeout=timeout)
            res[i] = (ps[i].returncode, o, e)
        except subprocess.TimeoutExpired:
            ps[i].kill()
            res[i] = (None, '', 'timeout')
    ts = [threading.Thread(target=wait, args=(i,)) for i in range(N)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for i, (rc, o, e) in enumerate(res):
        if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            outs.append({'families': [], 'samples': [], 'violations': [{'case': 'process|dies', 'detail': f'the process of the server dies of signal {-rc}: {e[-600:]}'}]})
        elif rc != 0:
            errs.append(f'shard {i}: exit {rc} {e[-600:]}')
        else:
            outs.append(json.loads(o))
    return outs, errs


def check(prop):
    ok, out = build()
    if not ok:
        print(out[-4000:])
        vc.finish(prop, 'model_checking', {'states': 0, 'transitions': 0}, [{'case': 'server|compile', 'detail': 'the harness, which uses only the public interface, does not compile: ' + vc.errors(out)}])
    outs, errs = run([prop, vc.TIER], 840 if vc.TIER == 'quick' else 7000)
    fams = {}
    viol, samples = [], []
    for o in outs:
        viol += o['violations']
        samples += o['samples']
        for f in o['families']:
            g = fams.setdefault(f['family'], {'budget': f['budget'], 'distinct_histories': 0})
            g['distinct_histories'] += f['distinct_histories']
            g['seconds'] = max(g.get('seconds', 0), round(f['seconds'], 1))
            for k, v in f['stats'].items():
                g[k] = max(g.get(k, 0), v) if k == 'max_depth' else g.get(k, 0) + v
    tot = lambda k: sum(f.get(k, 0) for f in fams.values())
    cov = {
        'states': tot('distinct_histories'), 'transitions': tot('steps'), 'traces_validated_against_impl': tot('executions'),
        'exhaustive': tot('capped') == 0 and not viol,
        'scenarios': tot('scenarios'), 'executions': tot('executions'), 'choices': tot('choices'), 'scenarios_exhausted': tot('exhausted'), 'scenarios_capped': tot('capped'),
        'bound': {n: {'deviations': f['budget'], 'scenarios': f['scenarios'], 'executions': f['executions'], 'distinct_histories': f['distinct_histories'], 'max_choices': f['max_depth'], 'seconds': f['seconds']} for n, f in fams.items()},
        'samples': samples[:3],
    }
    viol.sort(key=lambda v: len(v['case']))
    vc.finish(prop, 'model_checking', cov, viol, assumptions=[
        'tasks are interleaved at their await points on the single-threaded tokio scheduler (its queue and yield_now patched to ask the explorer)',
        'at most the stated number of deviations from first come, first served per execution',
    ], engine_errors=errs)

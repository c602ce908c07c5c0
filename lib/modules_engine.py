"""C06 and C07: exploration of programs (namespaces, types, methods, backends) through the real generator, tsc, node and the real server (see modules/)."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vc

sys.path.insert(0, os.path.join(vc.VERIF, 'modules'))
import corpus, gen

N = 8 if vc.TIER == 'quick' else 32  # binaries: rustc needs memory
MODULES = '/opt/veriftools/node/node_modules'
TOML = '''[package]
name = "modules-%s"
version = "0.0.0"
edition = "2021"
autobins = false
[workspace]
[dependencies]
zod = { path = "%s" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
futures = "0.3"
tokio = { version = "1", features = ["rt", "time"] }
[profile.dev]
debug = 0
opt-level = 0
incremental = false
[profile.bare]
inherits = "dev"
debug-assertions = false
overflow-checks = false
%s'''


def shards(programs):
    """Numbered programs in N binaries, no name of a namespace twice in a binary."""
    out = [([], set(), [0]) for _ in range(N)]
    for n, p in enumerate(programs):
        gen.number(p, n)
        names = {gen.client_ns(p, i) for i in range(len(p.ns))}
        size = sum(2 + len(t['refs']) for t in p.types) + sum(2 + len(m['args']) for m in p.methods) + 3 * len(p.backends)
        ok = [s for s in out if not names & s[1]]
        if not ok:
            vc.die(f'no binary is left for {p.key}')
        s = min(ok, key=lambda s: s[2][0])
        s[0].append((n, p))
        s[1].update(names)
        s[2][0] += size
    return [s[0] for s in out]


def generate(prop, tier):
    d = os.path.join(vc.BUILD, f'modules-{prop}-{tier}')
    ss = shards({'C06': corpus.corpus06, 'C07': corpus.corpus07}[prop](tier))
    ss.append(ss[0][::8])  # once more, compiled as in a release: without debug assertions
    vc.write_if_changed(os.path.join(d, 'src/rt.rs'), open(os.path.join(vc.VERIF, 'modules/rt.rs')).read())
    for i, s in enumerate(ss):
        vc.write_if_changed(os.path.join(d, f'src/s{i}.rs'), gen.main_rs(s, 'rt.rs'))
        vc.write_if_changed(os.path.join(d, f's{i}.json'), json.dumps([gen.describe(p, n) for n, p in s]))
    vc.write_if_changed(os.path.join(d, 'Cargo.toml'), TOML % (prop.lower(), vc.REPO, ''.join(f'[[bin]]\nname = "{exe(prop, tier, i)}"\npath = "src/s{i}.rs"\n' for i in range(N + 1))))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        open(lock, 'w').write(open(os.path.join(vc.VERIF, 'lib/Cargo.lock.template')).read())
    return d, ss


def exe(prop, tier, i):
    return f'modules_{prop.lower()}_{tier[0]}_s{i}'


def build(prop, tier):
    d, ss = generate(prop, tier)
    vc.build_lib(d)
    t = 850 if tier == 'quick' else 7000
    r = vc.cargo(d, ['--keep-going', *(x for i in range(N) for x in ('--bin', exe(prop, tier, i)))], timeout=t)
    r2 = vc.cargo(d, ['--profile', 'bare', '--bin', exe(prop, tier, N)], timeout=t)
    return d, ss, r, r2


def check(prop):
    d, ss, r, r2 = build(prop, vc.TIER)
    viol, errs, samples, st = [], [], [], {}
    broken = set()
    if r2.returncode:
        broken.add(N)
    if r2.returncode and not r.returncode:
        viol.append({'case': 'module|compile|without debug assertions', 'detail': 'does not compile without debug assertions: ' + vc.errors(r2.stdout)})
    if r.returncode:
        for m in re.finditer(r'^error(\[E\d+\])?: .*?(?=^error|^warning|\Z)', r.stdout, re.S | re.M):
            e = m.group(0)
            b = re.search(r'could not compile `[^`]*` \(bin "\w+_s(\d+)"\)', e)
            if b:
                broken.add(int(b.group(1)))
                continue
            at = re.search(r'--> src/s(\d+)\.rs:(\d+)', e)
            key = 'module'
            if at:
                text = open(os.path.join(d, f'src/s{at.group(1)}.rs')).read().split('\n')[:int(at.group(2))]
                n = next((int(x) for x in (re.match(r'pub mod p(\d+) \{', l) and re.match(r'pub mod p(\d+) \{', l).group(1) for l in reversed(text)) if x), None)
                key = next((p.key for k, p in ss[int(at.group(1))] if k == n), key)
            viol.append({'case': f'{key}|compile|{e.splitlines()[0]}', 'detail': e[:1500]})
        located = {int(x) for x in re.findall(r'--> src/s(\d+)\.rs:', r.stdout)}
        errs += [f'binary {i} did not compile, but not for an error in its source' for i in sorted(broken - located - {N})] if not any(v['case'].startswith('module|compile') for v in viol) else []
        if broken <= {N}:
            vc.die('modules crate does not build: ' + vc.errors(r.stdout))
    def run(i):
        o = os.path.join(d, f'out-{i}.json')
        if os.path.exists(o):
            os.remove(o)
        cmd = ['node', '--max-old-space-size=3800', os.path.join(vc.VERIF, 'modules/run.cjs'), prop, os.path.join(d, f's{i}.json'), os.path.join(vc.TARGET, 'bare' if i == N else 'debug', exe(prop, vc.TIER, i)), vc.TIER, o]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NODE_PATH=MODULES), timeout=800 if vc.TIER == 'quick' else 7000)
            return i, o, p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return i, o, 1, 'timeout'
    for i, o, rc, txt in ThreadPoolExecutor(9 if vc.TIER == 'quick' else 6).map(run, [i for i in range(N + 1) if i not in broken]):
        if rc or not os.path.exists(o):
            errs.append(f'shard {i}: exit {rc}: {txt[-1500:]}')
            continue
        x = json.load(open(o))
        for k, v in x['st'].items():
            st[k] = st.get(k, 0) + v
        viol += x['violations']
        samples += x['samples'][:1]
        errs += x['engine']
    if not viol and not (st.get('programs') and st.get('methods')):
        errs.append('vacuous: ' + json.dumps(st))
    cov = {
        'states': st.get('backends', 0) if prop == 'C06' else st.get('calls', 0), 'transitions': st.get('steps', 0), 'traces_validated_against_impl': st.get('backends', 0) if prop == 'C06' else st.get('calls', 0),
        'exhaustive': not broken and not errs, **st, 'samples': samples[:4],
        'rule': {'C06': 'state = a backend of a program; every program of the corpus (modules/corpus.py) is compiled with the real macros, generated, parsed, type-checked with tsc, loaded in node, and every type exercised with values that are and are not its own',
                 'C07': 'state = a call; every method of every program of the corpus is called through the loaded client with every combination of its argument values, the request it sends is served by the real backend, and the answers are given back'}[prop],
    }
    vc.finish(prop, 'model_checking', cov, viol, assumptions=[
        'the programs are those of modules/corpus.py, the values those of modules/run.cjs',
        'tsc, node and zod 3 are the reference semantics of the generated text',
    ], engine_errors=errs)

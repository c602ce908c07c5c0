"""C17: every documentation text over an alphabet, through the real macro and generator, read back by the TypeScript compiler (see docs/)."""
import importlib.util, json, os, re, subprocess
import vc

spec = importlib.util.spec_from_file_location('docs_gen', os.path.join(vc.VERIF, 'docs/gen.py'))
gen = importlib.util.module_from_spec(spec)
spec.loader.exec_module(gen)
N = 8
MODULES = '/opt/veriftools/node/node_modules'
TOML = '''[package]
name = "docs-mc"
version = "0.0.0"
edition = "2021"
autobins = false
[workspace]
[dependencies]
zod = { path = "%s" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
futures = "0.3"
[profile.dev]
debug = 0
opt-level = 0
incremental = false
%s'''


def exe(tier, i):
    return f'docs_{tier[0]}_s{i}'


def generate(tier):
    d = os.path.join(vc.BUILD, f'docs-{tier}')
    items = gen.plan(tier)
    for x in items:
        x['text'] = gen.lines(x['how'], x['pieces'])
    chunks = [(c // 40, items[c:c + 40]) for c in range(0, len(items), 40)]
    shards = [chunks[i::N] for i in range(N)]
    for i, s in enumerate(shards):
        vc.write_if_changed(os.path.join(d, f'src/s{i}.rs'), gen.main_rs(s))
        vc.write_if_changed(os.path.join(d, f's{i}.json'), json.dumps(s))
    vc.write_if_changed(os.path.join(d, 'Cargo.toml'), TOML % (vc.REPO, ''.join(f'[[bin]]\nname = "{exe(tier, i)}"\npath = "src/s{i}.rs"\n' for i in range(N))))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        open(lock, 'w').write(open(os.path.join(vc.VERIF, 'lib/Cargo.lock.template')).read())
    return d, shards


def build(tier):
    d, shards = generate(tier)
    vc.build_lib(d)
    return d, shards, vc.cargo(d, ['--keep-going', '--bins'], timeout=850 if tier == 'quick' else 7000)


def check(prop):
    d, shards, r = build(vc.TIER)
    viol, errs, samples, st, broken = [], [], [], {}, set()
    if r.returncode:
        for m in re.finditer(r'^error(\[E\d+\])?: .*?(?=^error|^warning|\Z)', r.stdout, re.S | re.M):
            e = m.group(0)
            b = re.search(r'could not compile `[^`]*` \(bin "\w+_s(\d)"\)', e)
            if b:
                broken.add(int(b.group(1)))
            else:
                viol.append({'case': f'compile|{e.splitlines()[0]}', 'detail': e[:1500]})
        if not viol:
            errs.append('docs crate does not build, but not for an error in its source: ' + vc.errors(r.stdout))
        if not broken:
            vc.die('docs crate does not build: ' + vc.errors(r.stdout))
    ps = []
    for i in range(N):
        if i in broken:
            continue
        mods, o = os.path.join(d, f'modules-{i}.jsonl'), os.path.join(d, f'out-{i}.json')
        if os.path.exists(o):
            os.remove(o)
        with open(mods, 'w') as f:
            g = subprocess.run([os.path.join(vc.TARGET, 'debug', exe(vc.TIER, i))], stdout=f, stderr=subprocess.PIPE, text=True)
        if g.returncode:
            viol.append({'case': f'generate|shard {i}', 'detail': f'the generator ends with {g.returncode}: {g.stderr[-500:]}'})
            continue
        ps.append((i, o, subprocess.Popen(['node', '--max-old-space-size=3800', os.path.join(vc.VERIF, 'docs/run.cjs'), os.path.join(d, f's{i}.json'), mods, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NODE_PATH=MODULES))))
    for i, o, p in ps:
        txt, _ = p.communicate()
        if p.returncode or not os.path.exists(o):
            errs.append(f'shard {i}: exit {p.returncode}: {txt[-1500:]}')
            continue
        x = json.load(open(o))
        for k, v in x['st'].items():
            st[k] = st.get(k, 0) + v
        viol += x['violations']
        samples += x['samples'][:1]
    if not viol and not (st.get('types') and st.get('comments')):
        errs.append('vacuous: ' + json.dumps(st))
    viol.sort(key=lambda v: len(v['case']))
    cov = {'states': st.get('texts', 0), 'transitions': st.get('steps', 0), 'traces_validated_against_impl': st.get('types', 0), 'exhaustive': not broken and not errs, **st, 'samples': samples[:4],
           'alphabet': gen.FRAGMENTS, 'rule': 'state = (text, way of writing it, form of type); every sequence of fragments up to the stated length'}
    vc.finish(prop, 'model_checking', cov, viol, assumptions=['the TypeScript compiler is the reference for what is a comment, where it is attached and what the module declares', 'texts are string literals: #[doc = include_str!(..)] is a compile error of the macro'], engine_errors=errs)

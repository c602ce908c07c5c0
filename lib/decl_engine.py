"""C18: every declaration of a universe through the real macros and rustc; the accepted ones are generated and loaded (see decl/)."""
import bisect, concurrent.futures, importlib.util, json, os, subprocess
import vc

spec = importlib.util.spec_from_file_location('decl_gen', os.path.join(vc.VERIF, 'decl/gen.py'))
gen = importlib.util.module_from_spec(spec)
spec.loader.exec_module(gen)
N = 8
MODULES = '/opt/veriftools/node/node_modules'
TOML = '''[package]
name = "decl-mc"
version = "0.0.0"
edition = "2021"
autobins = false
[workspace]
[dependencies]
zod = { path = "%s" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
futures = "0.3"
[profile.dev]
debug = 0
opt-level = 0
incremental = false
%s'''


def setup(tier):
    d = os.path.join(vc.BUILD, f'decl-{tier}')
    bins = [f'{k}{i}' for k in ('accept_s', 'reject_s', 'plain_s') for i in range(N)]
    for b in bins:
        p = os.path.join(d, 'src', b + '.rs')
        if not os.path.exists(p):
            vc.write_if_changed(p, 'fn main() {}\n')
    vc.write_if_changed(os.path.join(d, 'Cargo.toml'), TOML % (vc.REPO, ''.join(f'[[bin]]\nname = "decl_{tier[0]}_{b}"\npath = "src/{b}.rs"\n' for b in bins)))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        open(lock, 'w').write(open(os.path.join(vc.VERIF, 'lib/Cargo.lock.template')).read())
    vc.build_lib(d)
    return d


def rounds(d, tier, kind, shards, text, tail, build):
    """Compiles the shards again and again, each time without the declarations that had errors. Returns {k: message} of those, and whether what is left compiles."""
    left, refused, n = [list(s) for s in shards], {}, 0
    live = set(range(N))
    other = []
    while live:
        n += 1
        at = {}
        for i in live:
            t, at[i] = gen.crate(left[i], text, tail(left[i]))
            vc.write_if_changed(os.path.join(d, f'src/{kind}_s{i}.rs'), t)
        args = [x for i in live for x in ('--bin', f'decl_{tier[0]}_{kind}_s{i}')]
        r = subprocess.run(['cargo', 'build' if build else 'check', '--offline', '--keep-going', '--message-format=json', '-q', *args], cwd=d, env=vc.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = {i: {} for i in live}
        bad, built = {}, set()
        for l in r.stdout.split('\n'):
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact' and f'_{kind}_s' in m['target']['name']:
                built.add(int(m['target']['name'].split('_s')[-1]))
            if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
                continue
            i = int(m['target']['name'].split('_s')[-1])
            msg = m['message']
            lines = []

            def walk(s):
                while s:
                    if s['file_name'].endswith(f'{kind}_s{i}.rs'):
                        lines.append(s['line_start'])
                    s = s['expansion'] and s['expansion']['span']
            for s in sorted(msg['spans'], key=lambda s: not s['is_primary']):
                walk(s)
                if lines:
                    break
            if not lines:
                for c in msg['children']:
                    for s in c['spans']:
                        walk(s)
            if lines:
                k = bisect.bisect_right([a for a, _ in at[i]], lines[-1]) - 1
                if k >= 0:
                    errs[i].setdefault(at[i][k][1].k, msg['message'])
                    continue
            if not msg['message'].startswith('aborting due to') and 'could not compile' not in msg['message']:
                bad.setdefault(i, msg['message'])
        nxt = set()
        for i in live:
            refused.update(errs[i])
            left[i] = [x for x in left[i] if x.k not in errs[i]]
            if errs[i] and left[i]:
                nxt.add(i)
            elif not errs[i] and i in bad:
                other.append(f'{kind} {i}: {bad[i]}')
            elif not errs[i] and i not in built:
                other.append(f'{kind} {i}: did not compile, but not for an error in its source: {r.stderr[-300:]}')
        if not any(errs.values()) and r.returncode and not bad:
            other.append(f'{kind}: cargo: {r.stderr[-800:]}')
        live = nxt
    return refused, n, other


def tail(ds):
    """a program that prints what the accepted declarations generate"""
    k = ', '.join(f'({d.k}, m{d.k}::B::generate::<zod::rpc::clients::WebsocketClient> as fn() -> String)' for d in ds if d.backend)
    return 'fn main() {\n use zod::rpc::Backend as _;\n std::panic::set_hook(Box::new(|_| {}));\n let all: Vec<(u32, fn() -> String)> = vec![' + k + '];\n for (k, f) in all {\n println!("{}", match std::panic::catch_unwind(f) { Ok(m) => serde_json::json!({"k": k, "module": m}), Err(_) => serde_json::json!({"k": k, "panic": true}) });\n }\n}\n'


def build(tier):
    d = setup(tier)
    u = gen.universe(tier)
    acc = [x for x in u if x.ok]
    return d, u, rounds(d, tier, 'accept', [acc[i::N] for i in range(N)], gen.module, tail, True)


def check(prop):
    d, u, (refused, n1, o1) = build(vc.TIER)
    rej = [x for x in u if not x.ok]
    by = {x.k: x for x in u}
    r2, n2, o2 = rounds(d, vc.TIER, 'reject', [rej[i::N] for i in range(N)], gen.module, lambda _: 'fn main() {}\n', False)
    errs = o1 + o2
    viol = [{'case': f'{by[k].key}|refused', 'detail': f'it is refused: {m}\n{by[k].text}'} for k, m in refused.items()]
    viol += [{'case': f'{x.key}|accepted', 'detail': f'it compiles\n{x.text}'} for x in rej if x.k not in r2 and not o2]
    # what is accepted is there on the client
    gone = {'modules': 0, 'members': 0}
    ps = []
    for i in range(N):
        exe = os.path.join(vc.TARGET, f'debug/decl_{vc.TIER[0]}_accept_s{i}')
        mods, out = os.path.join(d, f'modules-{i}.jsonl'), os.path.join(d, f'out-{i}.json')
        json.dump([{'k': x.k, 'key': x.key, 'members': x.members} for x in u if x.ok and x.backend and x.k not in refused], open(os.path.join(d, f'want-{i}.json'), 'w'))
        if os.path.exists(out):
            os.remove(out)
        with open(mods, 'w') as f:
            g = subprocess.run([exe], stdout=f, stderr=subprocess.PIPE, text=True)
        if g.returncode:
            errs.append(f'generator {i}: {g.returncode} {g.stderr[-300:]}')
            continue
        ps.append((i, out, subprocess.Popen(['node', '--max-old-space-size=3000', os.path.join(vc.VERIF, 'decl/run.cjs'), os.path.join(d, f'want-{i}.json'), mods, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NODE_PATH=MODULES))))
    for i, out, p in ps:
        txt, _ = p.communicate()
        if p.returncode or not os.path.exists(out):
            errs.append(f'shard {i}: exit {p.returncode}: {txt[-800:]}')
            continue
        x = json.load(open(out))
        viol += x['violations']
        for k in gone:
            gone[k] += x['st'][k]
    # the refused ones are Rust without the library
    r3, n3, o3 = ({}, 0, [])
    if os.environ.get('DECL_PLAIN'):
        r3, n3, o3 = rounds(d, vc.TIER, 'plain', [u[i::N] for i in range(N)], gen.plain, lambda _: 'fn main() {}\n', False)
        for k, m in list(r3.items())[:200]:
            print('PLAIN', by[k].key, m)
    fam = {}
    for x in u:
        f = fam.setdefault(x.key.split('|')[0], {'accepted': 0, 'refused': 0})
        f['accepted' if x.ok else 'refused'] += 1
    viol.sort(key=lambda v: len(v['case']))
    cov = {'states': len(u), 'transitions': len(u) + gone['members'], 'traces_validated_against_impl': len(u), 'rounds': n1 + n2, 'exhaustive': not errs, 'accepted': sum(x.ok for x in u), 'refused': len(rej), 'families': fam, 'generated_modules': gone['modules'], 'members_found': gone['members'],
           'messages': sorted({m[:120] for m in r2.values()})[:40],
           'rule': 'state = a declaration; every combination of the features in decl/gen.py; the oracle says from the features whether it is accepted; the refused ones are compiled in rounds, until every one has had an error of its own'}
    vc.finish(prop, 'model_checking', cov, viol, assumptions=['rustc is the reference; a refused declaration is one with an error of its own, whichever compiler phase finds it', 'receivers written as self: &mut Self are left out'], engine_errors=errs)

import glob, json, os, re, subprocess, sys
import vc

N = 8
ZERO = ('types', 'candidates', 'edges', 'serde_runs', 'serde_accepts', 'zod_accepts', 'zod_exact', 'ts_checked', 'ts_accepts', 'values', 'capped')


def generate(corpus, tier):
    d = os.path.join(vc.BUILD, f'types-{corpus}-{tier}')
    r = subprocess.run(['node', os.path.join(vc.VERIF, 'types/gen.mjs'), corpus, tier, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        vc.die('gen.mjs: ' + r.stdout[-2000:])
    lock = open(os.path.join(vc.VERIF, 'lib/Cargo.lock.template')).read()
    p = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(p):
        open(p, 'w').write(lock)
    return d


def build(corpus, tier):
    d = generate(corpus, tier)
    vc.build_lib(d)
    r = vc.cargo(d, ['--keep-going', '--bins'])
    broken = []
    if r.returncode:
        broken = sorted({int(x) for x in re.findall(rf'{corpus}_{tier[0]}_s(\d)"', r.stdout)})
        if not broken:
            print(r.stdout[-3000:])
            vc.die('types crate does not build')
    return d, broken, r.stdout


def check(prop, corpora, rule):
    st = dict.fromkeys(ZERO, 0)
    viol, errors, samples = [], [], []
    for corpus in corpora:
        d, broken, out = build(corpus, vc.TIER)
        if broken:
            errs = [m.group(0) for m in re.finditer(r'^error(\[E\d+\])?: .*?(?=^error|^warning|\Z)', out, re.S | re.M)]
            for e in errs[:20]:
                if 'could not compile' in e:
                    continue
                viol.append({'case': f'{corpus}|compile|{e.splitlines()[0]}', 'detail': e[:1500]})
            if not any(v['case'].startswith(f'{corpus}|compile') for v in viol):
                errors.append(f'{corpus}: binaries {broken} did not compile, but not for an error in their source')
        procs = []
        for i in range(N):
            if i in broken:
                continue
            o = os.path.join(d, f'out-{prop}-{i}.json')
            if os.path.exists(o):
                os.remove(o)
            cmd = ['node', '--max-old-space-size=3500', os.path.join(vc.VERIF, 'types/run.mjs'), d, str(i), os.path.join(vc.TARGET, 'debug', f'{corpus}_{vc.TIER[0]}_s{i}'), vc.TIER, rule, o]
            procs.append((i, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for i, o, p in procs:
            txt, _ = p.communicate()
            if p.returncode or not os.path.exists(o):
                errors.append(f'{corpus} shard {i}: exit {p.returncode}: {txt[-1500:]}')
                continue
            res = json.load(open(o))
            for k in ZERO:
                st[k] += res['stats'][k]
            st.setdefault('wire', res['stats']['wire'])
            for v in res['violations']:
                if v['rule'] == 'engine':
                    errors.append(f"{corpus}: {v['key']}: {v['detail']}")
                    continue
                viol.append({'case': f"{corpus}|{v['key']}|{v['what']}", 'detail': v['detail'], 'type': v['key'], 'shard': i, 'corpus': corpus, 'generated': v['gen'],
                             'again': f"ONLY='<type>' node /verif/types/run.mjs {d} {i} {vc.TARGET}/debug/{corpus}_{vc.TIER[0]}_s{i} {vc.TIER} {rule} /tmp/out.json"})
            samples += res['samples'][:1]
    if st['serde_accepts'] == 0 or (st['types'] and st['values'] < st['types']):
        errors.append('vacuous: ' + json.dumps(st))
    cov = {
        'states': st['candidates'], 'transitions': st['edges'], 'traces_validated_against_impl': st['serde_runs'],
        'samples': samples[:6], 'exhaustive': st['capped'] == 0,
        'types': st['types'], 'rust_values': st['values'], 'serde_accepts': st['serde_accepts'], 'zod_accepts': st['zod_accepts'], 'zod_accepts_unaltered': st['zod_exact'],
        'tsc_judged': st['ts_checked'], 'tsc_accepts': st['ts_accepts'], 'types_capped': st['capped'], 'wire_encoding': st.get('wire'),
        'corpora': corpora,
        'rule': 'state = (type, JavaScript value); every type of the corpus and every value within the edit bound of its base values (1 edit quick, 2 edits thorough) is visited; transition = one edit; each distinct (type, wire) is run through the real Deserialize, each value through the generated schema under zod and, where the property speaks of TypeScript, through tsc',
    }
    vc.finish(prop, 'model_checking', cov, viol, ASSUME, errors)


ASSUME = [
    'zod 3 (the v3 API of the installed package), tsc, serde and serde_json are the reference semantics',
    'values are those within the stated number of single edits of the base values of each type; types are those of the corpus',
]

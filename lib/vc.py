"""Shared by all checks: building from /repo, known findings, evidence, verdicts."""
import hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZOD_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
START = time.time()
os.makedirs(BUILD, exist_ok=True)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    """The check itself could not run: neither held nor violated."""
    log('ERROR:', msg)
    sys.exit(2)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.ts', '.lock', '.json', '.js')):
                p = os.path.join(root, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    return h.hexdigest()


def env(target=TARGET, **kw):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e


def fresh(crate_dir, target=TARGET):
    """Make cargo rebuild /repo's crates when their sources are not the ones the target directory was built from."""
    stamp = os.path.join(target, 'repo-hash-' + os.path.basename(crate_dir))
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h and os.path.isdir(target):
        bare = [['--profile', 'bare']] if '[profile.bare]' in open(os.path.join(crate_dir, 'Cargo.toml')).read() else []
        for profile in [[]] + bare:
            subprocess.run(['cargo', 'clean', '--offline', *profile, '-p', 'zod', '-p', 'zod-core', '-p', 'zod-derive'], cwd=crate_dir, env=env(target), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(target, exist_ok=True)
    open(stamp, 'w').write(h)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, 'w').write(text)


def cargo(crate_dir, args, target=TARGET, timeout=800, **kw):
    return subprocess.run(['cargo', 'build', '--offline', *args], cwd=crate_dir, env=env(target, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def errors(out):
    """The error messages in cargo's output."""
    import re
    e = [m.group(0) for m in re.finditer(r'^error(\[E\d+\])?: .*?(?=^error|^warning|\Z)', out, re.S | re.M)]
    return '\n'.join(e)[:2000] or out[-1500:]


def build_lib(crate_dir, target=TARGET, pkg='zod', **kw):
    """The code under test must compile by itself; if it does not there is nothing to check."""
    fresh(crate_dir, target)
    r = cargo(crate_dir, ['-p', pkg], target, **kw)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        die('/repo does not build')


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if prop in d['properties']:
                    out.append(d)
    return out


def known_cases(prop):
    """case -> id of the finding that explains it; explicit lists, one case per line, written by hand or by tools/known.py"""
    cases = {}
    for d in known_findings(prop):
        if d['status'] != 'known':
            continue
        for c in d.get('cases', []):
            cases[c] = d['id']
        if d.get('case_file'):
            for l in open(os.path.join(VERIF, d['case_file'])):
                l = l.rstrip('\n')
                if not l:
                    continue
                pr, c = l.split('\t', 1)
                if pr == prop:
                    cases[c] = d['id']
    return cases


def finish(prop, level, coverage, violations, assumptions=(), engine_errors=()):
    """violations: list of dicts with 'case' (stable identity) and 'detail' and anything a replay needs."""
    cases = known_cases(prop)
    new, seen = [], {}
    for v in violations:
        k = cases.get(v['case'])
        if k is None:
            new.append(v)
        else:
            seen.setdefault(k, []).append(v)
    coverage = dict(coverage)
    coverage['known_finding_cases'] = sum(len(x) for x in seen.values())
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage, 'assumptions': list(assumptions), 'wall_s': round(time.time() - START, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VC_DUMP'):
        json.dump(violations, open(os.environ['VC_DUMP'], 'w'))
    for d in known_findings(prop):
        if d['status'] == 'known':
            n = len(seen.get(d['id'], []))
            print(f"KNOWN-FINDING: property={prop} {d['id']}: {d['what']} ({n} cases seen)")
    if engine_errors:
        for e in engine_errors[:5]:
            log('ENGINE:', e)
        if not new:
            die('the check could not judge everything it should')
    if new:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}.json')
        json.dump({'property': prop, 'tier': TIER, 'repo_hash': repo_hash(), 'violations': new[:50], 'total': len(new)}, open(path, 'w'), indent=1)
        for v in new[:5]:
            print('  ' + v['case'][:300])
            print('     ' + str(v.get('detail', ''))[:500])
        if len(new) > 5:
            print(f'  ... {len(new)} in all')
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    print(f'OK property={prop} tier={TIER} wall={ev["wall_s"]}s ' + ' '.join(f'{k}={v}' for k, v in coverage.items() if isinstance(v, int)))
    sys.exit(0)

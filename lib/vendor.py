"""Copies of tokio and futures-util in which every scheduling decision asks the explorer (made from the cargo cache)."""
import glob, os, re, shutil, sys
import vc

EDITS = {
    'tokio': [
        ('src/runtime/scheduler/current_thread/mod.rs', 'let ret = self.tasks.pop_front();',
         'let ret = if self.tasks.is_empty() { None } else { let i = unsafe { __mc_choose(self.tasks.len()) }; self.tasks.remove(i) };'),
        ('src/runtime/scheduler/current_thread/mod.rs', 'impl CoreGuard<\'_> {', 'extern "Rust" { fn __mc_choose(n: usize) -> usize; }\nimpl CoreGuard<\'_> {'),
        ('src/macros/support.rs', 'crate::runtime::context::thread_rng_n(n)', '{ extern "Rust" { fn __mc_choose(n: usize) -> usize; }\n        if n > 1 { unsafe { __mc_choose(n as usize) as u32 } } else { 0 } }'),
        # a task that yields is ready at once, not after all others have run
        ('src/task/yield_now.rs', 'context::defer(cx.waker());', 'cx.waker().wake_by_ref();'),
    ],
    'futures-util': [
        ('src/async_await/random.rs', '(random() % n as u64) as usize', 'if false { let _ = random(); }\n    unsafe { __mc_choose(n) }'),
        ('src/async_await/random.rs', 'fn gen_index(', 'extern "Rust" { fn __mc_choose(n: usize) -> usize; }\nfn gen_index('),
    ],
}


def make():
    lock = open(os.path.join(vc.VERIF, 'lib/Cargo.lock.template')).read()
    out = os.path.join(vc.BUILD, 'vendor')
    for name, edits in EDITS.items():
        ver = re.search(rf'name = "{name}"\nversion = "([^"]+)"', lock).group(1)
        src = glob.glob(os.path.expanduser(f'~/.cargo/registry/src/*/{name}-{ver}'))
        if not src:
            vc.die(f'{name}-{ver} is not in the cargo cache')
        dst = os.path.join(out, name)
        stamp = os.path.join(dst, '.mc')
        want = ver + repr(edits)
        if os.path.exists(stamp) and open(stamp).read() == want:
            continue
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(src[0], dst, ignore=shutil.ignore_patterns('tests', 'benches', 'examples', '.cargo-ok', '.cargo_vcs_info.json'))
        for f, old, new in edits:
            p = os.path.join(dst, f)
            t = open(p).read()
            if t.count(old) != 1:
                vc.die(f'{name}-{ver} {f}: {t.count(old)} matches of {old!r}')
            open(p, 'w').write(t.replace(old, new))
        open(stamp, 'w').write(want)
    return out

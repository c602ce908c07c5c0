//! Stateless exploration: every execution of a scenario is a sequence of choices (which ready task runs next, which
//! branch a `select!` looks at first); `explore` enumerates all sequences with at most `budget` deviations from the
//! default choice 0 (first come, first served), depth first, by re-execution.
use std::cell::RefCell;

pub const STEP_LIMIT: usize = 100_000;

#[derive(Default)]
pub struct Ctl {
    prefix: Vec<(u16, u16)>,
    trace: Vec<(u16, u16)>,
    pub steps: usize,
    pub on: bool,
    diverged: bool,
}

thread_local! {
    pub static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
}

pub fn steps() -> usize {
    CTL.with(|c| c.borrow().steps)
}

#[no_mangle]
pub extern "Rust" fn __mc_choose(n: usize) -> usize {
    let over = CTL.with(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return Ok(0);
        }
        c.steps += 1;
        if c.steps > STEP_LIMIT {
            c.on = false;
            return Err(());
        }
        if n <= 1 {
            return Ok(0);
        }
        let i = c.trace.len();
        let pick = match c.prefix.get(i).copied() {
            Some((p, m)) => {
                if m as usize != n {
                    c.diverged = true;
                }
                (p as usize).min(n - 1)
            }
            None => 0,
        };
        c.trace.push((pick as u16, n as u16));
        Ok(pick)
    });
    match over {
        Ok(p) => p,
        Err(()) => panic!("mc: step limit"),
    }
}

/// std takes the keys of its hash maps from here: the order of iteration is the same in every execution.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

#[derive(Default, Clone, Debug, serde::Serialize)]
pub struct Stats {
    pub scenarios: u64,
    pub executions: u64,
    pub steps: u64,
    pub choices: u64,
    pub max_depth: u64,
    pub exhausted: u64,
    pub capped: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.scenarios += o.scenarios;
        self.executions += o.executions;
        self.steps += o.steps;
        self.choices += o.choices;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.exhausted += o.exhausted;
        self.capped += o.capped;
    }
}

pub enum Outcome<T> {
    Done(T),
    Panicked(String),
    StepLimit,
}

/// One execution on a thread of its own (fresh thread locals), under the given choices.
pub fn execute<T: Send, F: Fn() -> T + Sync>(prefix: &[(u16, u16)], f: &F) -> (Outcome<T>, Vec<(u16, u16)>, usize) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, || {
                CTL.with(|c| *c.borrow_mut() = Ctl { prefix: prefix.to_vec(), on: true, ..Default::default() });
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let (trace, steps, diverged) = CTL.with(|c| {
                    let mut c = c.borrow_mut();
                    c.on = false;
                    (std::mem::take(&mut c.trace), c.steps, c.diverged)
                });
                if diverged {
                    eprintln!("mc: replay diverged");
                    std::process::exit(7);
                }
                let out = match r {
                    Ok(v) => Outcome::Done(v),
                    Err(_) if steps > STEP_LIMIT => Outcome::StepLimit,
                    Err(e) => Outcome::Panicked(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
                };
                (out, trace, steps)
            })
            .expect("thread")
            .join()
            .expect("joined")
    })
}

static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static WHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn at(case: &str) {
    *WHERE.lock().unwrap() = case.to_string();
}

/// Reports an execution that does not come back: code under test that never yields again.
pub fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut still) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = BEAT.load(std::sync::atomic::Ordering::SeqCst);
            still = if n == last { still + 1 } else { 0 };
            last = n;
            if still >= 40 && n > 0 {
                let case = WHERE.lock().unwrap().clone();
                println!("{}", serde_json::json!({"families": [], "samples": [], "violations": [{"case": format!("{case}|hangs"), "detail": "the server never gives control back", "choices": []}]}));
                std::process::exit(0);
            }
        }
    });
}

/// All executions with at most `budget` deviations; `judge` returns false to stop (a violation was found).
pub fn explore<T: Send, F: Fn() -> T + Sync>(budget: usize, cap: u64, f: F, mut judge: impl FnMut(Outcome<T>, &[u16]) -> bool) -> Stats {
    let mut st = Stats { scenarios: 1, ..Default::default() };
    let mut prefix: Vec<(u16, u16)> = vec![];
    loop {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let (out, mut trace, steps) = execute(&prefix, &f);
        st.executions += 1;
        st.steps += steps as u64;
        st.choices += trace.len() as u64;
        st.max_depth = st.max_depth.max(trace.len() as u64);
        let picks: Vec<u16> = trace.iter().map(|t| t.0).collect();
        if !judge(out, &picks) {
            return st;
        }
        if st.executions >= cap {
            st.capped = 1;
            return st;
        }
        let mut devs = trace.iter().filter(|t| t.0 != 0).count();
        loop {
            match trace.pop() {
                None => {
                    st.exhausted = 1;
                    return st;
                }
                Some((c, n)) => {
                    if c != 0 {
                        devs -= 1;
                    }
                    if c + 1 < n && devs + 1 <= budget {
                        trace.push((c + 1, n));
                        break;
                    }
                }
            }
        }
        prefix = trace;
    }
}

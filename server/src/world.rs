//! What happened during one execution: a log shared by the methods and streams of the backend and the drivers.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::task::{Poll, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// method body entered: tag, name, arguments
    Enter { tag: u32, what: String },
    Exit { tag: u32, state: i32 },
    /// stream created: serial, tag, arguments
    Open { serial: u32, tag: u32, what: String },
    Item { serial: u32, i: u32 },
    End { serial: u32 },
    Drop { serial: u32 },
    /// a response arrives at a client
    Recv { con: usize, v: serde_json::Value },
    /// a client begins step `i` of its script / the step is known to be handled
    Begin { con: usize, i: usize },
    Done { con: usize, i: usize },
    /// driver marks
    Mark(String),
}

#[derive(Default)]
pub struct World {
    pub log: Vec<Ev>,
    pub serial: u32,
    pub gates: BTreeSet<u32>,
    pub waiting: BTreeMap<u32, Vec<Waker>>,
    pub gate_items: BTreeMap<u32, u32>,
    pub burst: (u32, usize, u32),
    pub blocked: bool,
    pub released: bool,
    pub wire: Vec<(&'static str, String)>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset() {
    W.with(|w| *w.borrow_mut() = World::default());
}
pub fn log(e: Ev) {
    with(|w| w.log.push(e));
}
pub fn mark(s: impl Into<String>) {
    log(Ev::Mark(s.into()));
}
pub fn take() -> World {
    W.with(|w| std::mem::take(&mut *w.borrow_mut()))
}

pub async fn gate(k: u32) {
    std::future::poll_fn(|cx| {
        with(|w| {
            if w.gates.contains(&k) {
                Poll::Ready(())
            } else {
                w.waiting.entry(k).or_default().push(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await
}

/// gate k lets methods pass, and the gated streams get one more item
pub fn open_gate(k: u32) {
    let ws = with(|w| {
        w.gates.insert(k);
        *w.gate_items.entry(k).or_default() += 1;
        w.waiting.remove(&k).unwrap_or_default()
    });
    for w in ws {
        w.wake();
    }
}

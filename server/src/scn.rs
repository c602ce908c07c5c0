//! Scripts of clients, what each of them may see, and the drivers that run them.
use crate::api::{self, Kind};
use crate::world::{self, Ev};
use futures::channel::mpsc::{unbounded, UnboundedReceiver};
use futures::{FutureExt, StreamExt};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use zod::rpc::{servers::proxy::BackendProxy, Backend, Request, Response, SubscriberMap};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Add(i32),
    Get,
    SideGet,
    SideAdd(i32),
    Slow(u32),
    BadRet,
    Nop,
    /// a call whose argument and result are this long
    Echo(usize),
    Open(Kind, u32, usize), // kind, n, id
    SideOpen(u32, usize),
    Cancel(usize),
    /// method call that uses this id
    GetAs(usize),
    /// requests that name nothing: unknown method, unknown namespace, wrong arguments; with this id
    NoMethod(usize),
    NoNs(usize),
    BadArgs(usize),
    /// text that is not a request at all (proxy level: the error the endpoint would send)
    Garbage,
    /// wait for one more response
    Recv,
    OpenGate(u32),
    /// drop all subscriptions (handle_request level), drop the connection (proxy level)
    Drop,
    /// drop only the sending half
    DropTx,
    Yield,
    /// reads nothing until the end
    Hold,
}

/// clients still waiting for a response when all is done stop waiting
pub const STOP: u32 = 99;

pub type Script = Vec<Act>;

pub fn tag(con: usize, i: usize) -> u32 {
    (con * 10_000 + i + 1) as u32
}
pub fn default_id(i: usize) -> usize {
    50 + i
}

impl Act {
    pub fn id(&self, i: usize) -> Option<usize> {
        use Act::*;
        match self {
            Add(_) | Get | SideGet | SideAdd(_) | Slow(_) | BadRet | Nop | Echo(_) => Some(default_id(i)),
            Open(_, _, id) | SideOpen(_, id) | GetAs(id) | NoMethod(id) | NoNs(id) | BadArgs(id) => Some(*id),
            _ => None,
        }
    }
    pub fn is_request(&self) -> bool {
        self.id(0).is_some() || matches!(self, Act::Cancel(_) | Act::Garbage)
    }
    pub fn json(&self, con: usize, i: usize) -> Value {
        use Act::*;
        let t = tag(con, i);
        let e = |ns: &str, m: &str, args: Value| json!({"exec": {"id": self.id(i).unwrap(), "namespace": ns, "method": m, "args": args}});
        match self {
            Add(n) => e("Main", "add", json!([t, n])),
            Get | GetAs(_) => e("Main", "get", json!([t])),
            SideGet => e("other_ns", "get", json!([t])),
            SideAdd(n) => e("other_ns", "add", json!([t, n])),
            Slow(k) => e("Main", "slow", json!([t, k])),
            BadRet => e("Main", "bad", json!([t])),
            Nop => e("Main", "nop", json!([])),
            Echo(n) => e("Main", "five", json!([t, 7, "a".repeat(*n), null, []])),
            Open(Kind::Count, n, _) => e("Main", "count", json!([t, n])),
            Open(Kind::Burst, n, _) => e("Main", "burst", json!([t, n])),
            Open(Kind::Forever, _, _) => e("Main", "forever", json!([t])),
            Open(Kind::Never, _, _) => e("Main", "never", json!([t])),
            Open(Kind::Gated(k), _, _) => e("Main", "gated", json!([t, k])),
            Open(Kind::Bad, _, _) => e("Main", "badstream", json!([t])),
            Open(Kind::Empty, _, _) => e("Main", "empty", json!([])),
            SideOpen(n, _) => e("other_ns", "count", json!([t, n])),
            NoMethod(_) => e("Main", "nope", json!([t])),
            NoNs(_) => e("Nope", "get", json!([t])),
            BadArgs(_) => e("Main", "add", json!([t, "x"])),
            Cancel(id) => json!({"cancelStream": {"id": id}}),
            Garbage => json!("garbage"),
            _ => unreachable!(),
        }
    }
}

fn request(v: &Value) -> Result<Request, Response> {
    serde_json::from_value(v.clone()).map_err(|e| Response::error(None, e))
}

pub struct Run {
    pub log: Vec<Ev>,
    pub blocked: bool,
    /// what is wrong with the way the responses came
    pub wire: Vec<(&'static str, String)>,
    /// the final request of a fresh connection was answered
    pub alive: bool,
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
/// the clock is paused: it advances when nothing can run any more
pub async fn idle() {
    tokio::time::sleep(Duration::from_millis(1)).await
}
pub fn recv(con: usize, r: &Response) {
    world::log(Ev::Recv { con, v: serde_json::to_value(r).expect("responses serialize") });
}
fn drain(con: usize, rx: &mut UnboundedReceiver<Response>) {
    while let Some(Some(r)) = rx.next().now_or_never() {
        recv(con, &r);
    }
}

/// One backend, one client, driven through `Backend::handle_request`.
pub fn run_handle(script: &Script) -> Run {
    run_handle_with(script, |_| None)
}
pub fn run_handle_with(script: &[Act], other: impl Fn(usize) -> Option<Result<Request, Response>>) -> Run {
    world::reset();
    let rt = runtime();
    let mut script: Vec<_> = script.iter().enumerate().map(|(i, a)| (*a, other(i))).collect();
    rt.block_on(async move {
        let (tx, rx) = unbounded();
        let rx = Arc::new(Mutex::new(rx));
        let subs_out = Arc::new(Mutex::new(None));
        {
            let (rx, subs_out) = (rx.clone(), subs_out.clone());
            tokio::spawn(async move {
                let mut api = api::api();
                let mut subs = SubscriberMap::default();
                for (i, (a, other)) in script.drain(..).enumerate() {
                    world::log(Ev::Begin { con: 0, i });
                    match a {
                        _ if other.is_some() => match other.unwrap() {
                            Ok(r) => api.handle_request(r, tx.clone(), &mut subs).await,
                            Err(e) => {
                                let _ = tx.unbounded_send(e);
                            }
                        },
                        Act::Yield | Act::Hold => {}
                        Act::OpenGate(k) => world::open_gate(k),
                        Act::Drop => drop(std::mem::take(&mut subs)),
                        a => match request(&a.json(0, i)) {
                            Ok(r) => api.handle_request(r, tx.clone(), &mut subs).await,
                            Err(e) => {
                                let _ = tx.unbounded_send(e);
                            }
                        },
                    }
                    drain(0, &mut rx.lock().unwrap());
                    world::log(Ev::Done { con: 0, i });
                    tokio::task::yield_now().await;
                }
                *subs_out.lock().unwrap() = Some((api, subs, tx));
            });
        }
        idle().await;
        drain(0, &mut rx.lock().unwrap());
        world::mark("idle");
        for k in 0..2 {
            world::open_gate(k);
        }
        idle().await;
        drain(0, &mut rx.lock().unwrap());
        world::mark("gates open");
        let taken = subs_out.lock().unwrap().take();
        let mut alive = taken.is_some();
        if let Some((mut api, subs, tx)) = taken {
            world::mark("drop");
            drop(subs);
            drop(tx);
            idle().await;
            drain(0, &mut rx.lock().unwrap());
            world::mark("dropped");
            let (tx, mut rx) = unbounded();
            api.handle_request(request(&Act::Get.json(9999, 0)).unwrap(), tx, &mut SubscriberMap::default()).await;
            alive = matches!(rx.next().now_or_never(), Some(Some(Response::Method { .. })));
        }
        alive
    })
    .finish(rt)
}

pub trait Finish {
    fn finish(self, rt: tokio::runtime::Runtime) -> Run;
}
impl Finish for bool {
    fn finish(self, rt: tokio::runtime::Runtime) -> Run {
        drop(rt);
        let w = world::take();
        Run { log: w.log, blocked: w.blocked, wire: w.wire, alive: self }
    }
}

/// One backend, several clients, each a task of its own, driven through `BackendProxy`.
pub fn run_proxy(scripts: &[Script]) -> Run {
    world::reset();
    let rt = runtime();
    let scripts = scripts.to_vec();
    rt.block_on(async move {
        let proxy = BackendProxy::new(api::api());
        let n = scripts.len();
        let ends: Arc<Mutex<Vec<Option<(Option<zod::rpc::servers::proxy::ProxyTx>, zod::rpc::servers::proxy::ProxyRx)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
        for (con, script) in scripts.into_iter().enumerate() {
            let (ends, proxy) = (ends.clone(), proxy.clone());
            tokio::spawn(async move {
                let (tx, rx) = proxy.connect().split();
                drop(proxy);
                let (mut tx, mut rx) = (Some(tx), Some(rx));
                for (i, a) in script.iter().enumerate() {
                    tokio::task::yield_now().await;
                    world::log(Ev::Begin { con, i });
                    match a {
                        Act::Yield | Act::Hold => {}
                        Act::OpenGate(k) => world::open_gate(*k),
                        Act::Drop => {
                            tx = None;
                            rx = None;
                        }
                        Act::DropTx => tx = None,
                        Act::Recv => {
                            if let Some(rx) = &mut rx {
                                let stop = world::gate(STOP);
                                futures::pin_mut!(stop);
                                match futures::future::select(rx.next(), stop).await {
                                    futures::future::Either::Left((Some(r), _)) => recv(con, &r),
                                    futures::future::Either::Left((None, _)) => {}
                                    futures::future::Either::Right(_) => break,
                                }
                            }
                        }
                        a => {
                            if let Some(tx) = &tx {
                                if tx.send(request(&a.json(con, i))).is_err() {
                                    world::mark(format!("refused {con}"));
                                }
                            }
                        }
                    }
                    world::log(Ev::Done { con, i });
                }
                if let Some(rx) = rx {
                    ends.lock().unwrap()[con] = Some((tx, rx));
                }
            });
        }
        let drain = |ends: &Mutex<Vec<Option<(Option<_>, zod::rpc::servers::proxy::ProxyRx)>>>| {
            for (con, e) in ends.lock().unwrap().iter_mut().enumerate() {
                if let Some((_, rx)) = e {
                    while let Some(Some(r)) = rx.next().now_or_never() {
                        recv(con, &r);
                    }
                }
            }
        };
        idle().await;
        drain(&ends);
        world::mark("idle");
        for k in 0..2 {
            world::open_gate(k);
        }
        idle().await;
        drain(&ends);
        world::mark("gates open");
        world::open_gate(STOP);
        idle().await;
        world::mark("drop");
        let gone: Vec<_> = ends.lock().unwrap().iter_mut().map(|e| e.take()).collect();
        drop(gone);
        idle().await;
        world::mark("dropped");
        let (tx, mut rx) = proxy.connect().split();
        let sent = tx.send(request(&Act::Get.json(9999, 0))).is_ok();
        idle().await;
        let got = rx.next().now_or_never();
        drop((tx, rx, proxy));
        idle().await;
        if !world::with(|w| w.released) {
            world::with(|w| w.wire.push(("backend-leak", "no proxy and no connection is left, the backend is still there".into())));
        }
        sent && matches!(got, Some(Some(Response::Method { .. })))
    })
    .finish(rt)
}

// ------------------------------------------------------------------------------------------------ monitors
#[derive(Debug)]
struct Inst {
    serial: u32,
    tag: u32,
    open: usize,
    items: Vec<usize>,
    end: Option<usize>,
    drop: Option<usize>,
}

/// Everything wrong with one execution, as (rule, text). The rules each check reports: see `RULES`.
pub fn judge(scripts: &[Script], run: &Run, direct: bool) -> Vec<(&'static str, String)> {
    let log = &run.log;
    let mut bad: Vec<(&'static str, String)> = run.wire.clone();
    let pos = |s: &str| log.iter().position(|e| matches!(e, Ev::Mark(m) if m == s));
    let dropped_at = pos("drop").unwrap_or(log.len());
    let end = log.len();
    if run.blocked {
        bad.push(("blocked", "a stream that is always ready keeps everything else from running".into()));
    }
    if !run.alive {
        bad.push(("alive", "the backend does not answer a later request".into()));
    }
    // ---- methods: one after the other, on the state the previous one left
    let (mut state, mut side) = (0i32, 1000i32);
    let mut open: Option<(u32, String)> = None;
    let mut results: std::collections::BTreeMap<u32, Vec<(i32, String)>> = Default::default();
    for e in log {
        match e {
            Ev::Enter { tag, what } => {
                if let Some((t, w)) = &open {
                    bad.push(("overlap", format!("{what} (tag {tag}) starts while {w} (tag {t}) is running")));
                }
                open = Some((*tag, what.clone()));
            }
            Ev::Exit { tag, state: s } => {
                let what = match open.take() {
                    Some((t, w)) if t == *tag => w,
                    _ => {
                        bad.push(("overlap", format!("tag {tag} ends out of turn")));
                        continue;
                    }
                };
                let num = |p: &str| what.strip_prefix(p).and_then(|x| x.parse::<i32>().ok());
                let want = if what.starts_with("side") {
                    if let Some(n) = num("side add ") {
                        side += n;
                    }
                    side
                } else {
                    if let Some(n) = num("add ") {
                        state += n;
                    }
                    if what.starts_with("slow") {
                        state += 1;
                    }
                    state
                };
                if *s != want {
                    bad.push(("effects", format!("{what} (tag {tag}) saw {s}, the methods before it make {want}")));
                }
                results.entry(*tag).or_default().push((want, what));
            }
            _ => {}
        }
    }
    // ---- streams
    let mut inst: Vec<Inst> = vec![];
    for (p, e) in log.iter().enumerate() {
        match e {
            Ev::Open { serial, tag, .. } => inst.push(Inst { serial: *serial, tag: *tag, open: p, items: vec![], end: None, drop: None }),
            Ev::Item { serial, .. } => inst.iter_mut().find(|i| i.serial == *serial).unwrap().items.push(p),
            Ev::End { serial } => inst.iter_mut().find(|i| i.serial == *serial).unwrap().end = Some(p),
            Ev::Drop { serial } => inst.iter_mut().find(|i| i.serial == *serial).unwrap().drop = Some(p),
            _ => {}
        }
    }
    let mark_end = pos("dropped").unwrap_or(end);
    let idle_at = pos("idle").unwrap_or(end);
    let busy = log[..idle_at].iter().filter(|e| matches!(e, Ev::Enter { .. })).count() != log[..idle_at].iter().filter(|e| matches!(e, Ev::Exit { .. })).count();
    for (con, script) in scripts.iter().enumerate() {
        let begin = |i: usize| log.iter().position(|e| matches!(e, Ev::Begin { con: c, i: j } if *c == con && *j == i));
        let done = |i: usize| log.iter().position(|e| matches!(e, Ev::Done { con: c, i: j } if *c == con && *j == i));
        // the step after which this client is gone (proxy) or its subscriptions are (direct)
        let gone = script.iter().position(|a| *a == Act::Drop);
        let tx_gone = if direct { None } else { script.iter().position(|a| matches!(a, Act::Drop | Act::DropTx)) };
        let live = direct || gone.is_none();
        let recvs: Vec<(usize, &Value)> = log.iter().enumerate().filter_map(|(p, e)| match e {
            Ev::Recv { con: c, v } if *c == con => Some((p, v)),
            _ => None,
        }).collect();
        // requests that were sent at all
        let sent = |i: usize| script[i].is_request() && begin(i).is_some() && !tx_gone.is_some_and(|g| i > g);
        // ---- the stream instances of this client, by step
        let mut mine: Vec<(usize, &Inst)> = vec![];
        for (i, a) in script.iter().enumerate() {
            if !matches!(a, Act::Open(..) | Act::SideOpen(..)) {
                continue;
            }
            let t = if matches!(a, Act::Open(Kind::Empty, ..)) { 0 } else { tag(con, i) };
            let of: Vec<&Inst> = inst.iter().filter(|x| x.tag == t).collect();
            if t != 0 && of.len() > 1 {
                bad.push(("stream-twice", format!("{a:?} of client {con} started {} streams", of.len())));
            }
            if sent(i) && live && of.is_empty() {
                bad.push(("stream-never", format!("{a:?} of client {con} did not start")));
            }
            if t != 0 {
                if let Some(x) = of.first() {
                    mine.push((i, x));
                }
            }
        }
        // ---- what arrives
        let mut used = vec![false; recvs.len()];
        for (i, x) in &mine {
            let a = &script[*i];
            let id = a.id(*i).unwrap();
            let (kind, n) = match a {
                Act::Open(k, n, _) => (*k, *n),
                Act::SideOpen(n, _) => (Kind::Count, *n),
                _ => unreachable!(),
            };
            // items, in order, each once, tagged with the id
            let mut got: Vec<(usize, u64)> = vec![];
            for (k, (p, v)) in recvs.iter().enumerate() {
                let d = &v["stream"];
                if d["data"][0] == json!(x.serial) {
                    used[k] = true;
                    if d["id"] != json!(id) {
                        bad.push(("tag", format!("an item of {a:?} arrives with {v}")));
                    }
                    got.push((*p, d["data"][1].as_u64().unwrap_or(999)));
                }
            }
            let mut expect: Vec<u64> = (0..x.items.len() as u64).collect();
            if kind == Kind::Bad {
                // the second item is an error with this id
                let errs: Vec<usize> = recvs.iter().enumerate().filter(|(k, (_, v))| !used[*k] && v["error"]["id"] == json!(id) && v["error"]["data"].to_string().contains("does not serialize")).map(|(k, _)| k).collect();
                let want = usize::from(x.items.len() > 1);
                if let Some(&k) = errs.first() {
                    used[k] = true;
                    let p = recvs[k].0;
                    if got.iter().any(|(q, i)| (*i == 0 && *q > p) || (*i == 2 && *q < p)) {
                        bad.push(("item-order", format!("the error of the item that does not serialize is out of order for {a:?}")));
                    }
                    got.push((p, 1));
                    got.sort();
                } else if want == 1 && live {
                    // may still be missing when the stream was cut, see below
                }
                expect = (0..x.items.len() as u64).collect();
            }
            let seq: Vec<u64> = got.iter().map(|g| g.1).collect();
            if seq != expect[..seq.len().min(expect.len())] {
                bad.push(("items", format!("{a:?} of client {con} produced {expect:?}, {seq:?} arrived")));
            }
            // cut off by a cancel, by another stream with its id, by dropping the subscriptions
            let cut = (*i + 1..script.len()).find(|&j| {
                sent(j) && (script[j] == Act::Cancel(id) || (matches!(script[j], Act::Open(..) | Act::SideOpen(..)) && script[j].id(j) == Some(id))) || (direct && script[j] == Act::Drop)
            });
            match cut {
                None if live => {
                    // nothing may be missing
                    if seq.len() != expect.len() {
                        bad.push(("items", format!("{a:?} of client {con} produced {expect:?}, only {seq:?} arrived")));
                    }
                    let full = match kind {
                        Kind::Count | Kind::Burst => x.items.len() as u32 == n && x.end.is_some(),
                        Kind::Bad => x.items.len() == 3 && x.end.is_some(),
                        Kind::Never => x.items.is_empty(),
                        Kind::Gated(k) => {
                            let opened = 1 + scripts.iter().enumerate().map(|(c, s)| s.iter().enumerate().filter(|(j, b)| **b == Act::OpenGate(k) && log.iter().any(|e| *e == Ev::Begin { con: c, i: *j })).count()).sum::<usize>();
                            x.items.len() == opened
                        }
                        Kind::Forever => x.items.len() >= 6,
                        Kind::Empty => true,
                    };
                    if !full {
                        bad.push(("stalled", format!("{a:?} of client {con} stopped after {} items", x.items.len())));
                    }
                    if !x.end.is_some() && x.drop.is_some_and(|d| d < dropped_at) {
                        bad.push(("stopped", format!("{a:?} of client {con} was stopped, nobody asked for that")));
                    }
                }
                Some(j) => {
                    // handled: at once (direct), or when a later request of this client has been answered
                    let handled = if direct {
                        done(j)
                    } else {
                        (j..script.len()).filter(|&l| sent(l) && matches!(script[l], Act::Get | Act::SideGet | Act::Add(_) | Act::SideAdd(_))).find_map(|l| recvs.iter().find(|(_, v)| v["method"]["id"] == json!(script[l].id(l).unwrap())).map(|r| r.0))
                    };
                    if let Some(h) = handled {
                        if let Some(g) = got.iter().find(|g| g.0 > h) {
                            bad.push(("after-cancel", format!("item {} of {a:?} arrives after {:?} was handled", g.1, script[j])));
                        }
                    }
                    // a method that is running may keep the backend busy until the gates open
                    let quiet = if !busy && done(j).is_some_and(|d| d < idle_at) { idle_at } else { pos("gates open").unwrap_or(end) };
                    if sent(j) || direct {
                        if x.drop.is_none() || x.drop.unwrap() > quiet {
                            bad.push(("cancel-leak", format!("{a:?} of client {con} is still there after {:?}", script[j])));
                        }
                    }
                }
                None => {}
            }
            // gone with its connection
            if x.drop.is_none() || x.drop.unwrap() > mark_end {
                bad.push(("leak", format!("{a:?} of client {con} outlives its client")));
            }
            // (one that does not read ends its session by closing the connection when it reads again)
            let gone_by = if script.contains(&Act::Hold) { pos("gates open").unwrap_or(end) } else { idle_at };
            if !direct && gone.is_some() && begin(gone.unwrap()).is_some_and(|b| b < idle_at) && x.drop.map_or(true, |d| d > gone_by) {
                if !busy || x.drop.map_or(true, |d| d > pos("gates open").unwrap_or(end)) {
                    bad.push(("leak", format!("{a:?} of client {con} is still there although its client is gone")));
                }
            }
            if let Some(g) = got.iter().find(|g| g.0 > dropped_at) {
                if direct {
                    bad.push(("after-cancel", format!("item {} of {a:?} arrives after the subscriptions were dropped", g.1)));
                }
            }
            let _ = x.open;
        }
        // ---- everything else is answers to requests, in order
        let rest: Vec<(usize, &Value)> = recvs.iter().enumerate().filter(|(k, _)| !used[*k]).map(|(_, r)| *r).collect();
        let mut want: Vec<(usize, String)> = vec![];
        for (i, a) in script.iter().enumerate() {
            if !sent(i) || matches!(a, Act::Cancel(_) | Act::Open(..) | Act::SideOpen(..)) {
                continue;
            }
            let t = if *a == Act::Nop { 0 } else { tag(con, i) };
            let calls = results.get(&t).map(|v| v.len()).unwrap_or(0);
            let is_call = !matches!(a, Act::NoMethod(_) | Act::NoNs(_) | Act::BadArgs(_) | Act::Garbage);
            if t != 0 {
                if is_call && live && calls != 1 || !is_call && calls != 0 || calls > 1 {
                    bad.push(("calls", format!("{a:?} of client {con} ran {calls} times")));
                }
            }
            want.push((i, match a {
                Act::NoMethod(id) | Act::NoNs(id) | Act::BadArgs(id) => format!("error {id}"),
                Act::Garbage => "error null".into(),
                Act::BadRet => format!("error {}", a.id(i).unwrap()),
                Act::Echo(n) => format!("method {} [7,\"{}\"]", a.id(i).unwrap(), "a".repeat(*n)),
                Act::Nop => format!("method {} null", a.id(i).unwrap()),
                _ => match results.get(&t).and_then(|v| v.first()) {
                    Some((r, _)) => format!("method {} {r}", a.id(i).unwrap()),
                    None => "never".into(),
                },
            }));
        }
        let have: Vec<String> = rest.iter().map(|(_, v)| {
            if let Some(m) = v.get("method") {
                format!("method {} {}", m["id"], m["data"])
            } else if let Some(e) = v.get("error") {
                format!("error {}", e["id"])
            } else {
                v.to_string()
            }
        }).collect();
        let want: Vec<String> = want.into_iter().map(|w| w.1).collect();
        let ok = if live { have == want } else { have.len() <= want.len() && have[..] == want[..have.len()] };
        if !ok {
            bad.push(("answers", format!("client {con} expects {want:?}, it got {have:?}")));
        }
        if log.iter().any(|e| matches!(e, Ev::Mark(m) if *m == format!("refused {con}"))) {
            bad.push(("alive", format!("the backend refuses requests of client {con}")));
        }
    }
    bad
}

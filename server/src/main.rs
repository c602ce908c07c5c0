mod api;
mod mc;
mod scn;
mod textrun;
mod texts;
#[allow(dead_code)]
mod world;
mod ws;

use api::Kind::*;
use mc::Outcome;
use scn::{Act, Act::*, Script};
use ws::F;
use serde_json::{json, Value};

/// all sequences over `alphabet` of length 1..=len
fn seqs(alphabet: &[Act], len: usize) -> Vec<Script> {
    let mut out: Vec<Script> = vec![];
    let mut layer: Vec<Script> = vec![vec![]];
    for _ in 0..len {
        layer = layer.iter().flat_map(|s| alphabet.iter().map(move |a| s.iter().copied().chain([*a]).collect())).collect();
        out.extend(layer.iter().cloned());
    }
    out
}
fn fseqs(alphabet: &[F], len: usize) -> Vec<Vec<F>> {
    let mut out: Vec<Vec<F>> = vec![];
    let mut layer: Vec<Vec<F>> = vec![vec![]];
    for _ in 0..len {
        layer = layer.iter().flat_map(|s| alphabet.iter().map(move |a| s.iter().cloned().chain([a.clone()]).collect())).collect();
        out.extend(layer.iter().cloned());
    }
    out
}
fn nothing_after_drop(s: &Script) -> bool {
    s.iter().position(|a| matches!(a, Drop)).map_or(true, |p| p + 1 == s.len())
}

struct Family {
    name: &'static str,
    cases: Vec<Case>,
    budget: usize,
    rules: &'static [&'static str],
}

fn families(prop: &str, thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let f = std::cell::RefCell::new(vec![]);
    let add = |name, direct: bool, scenarios: Vec<Vec<Script>>, budget, rules| {
        let cases = scenarios.into_iter().map(|mut s| if direct { Case::Handle(s.remove(0)) } else { Case::Proxy(s) }).collect();
        f.borrow_mut().push(Family { name, cases, budget, rules })
    };
    let cases = |name, cases: Vec<Case>, budget, rules| f.borrow_mut().push(Family { name, cases, budget, rules });
    let one = |v: Vec<Script>| v.into_iter().map(|s| vec![s]).collect::<Vec<_>>();
    match prop {
        "C08" => {
            const R: &[&str] = &["answers", "calls", "stopped", "stream-twice", "stream-never", "alive", "panic", "items", "cancel-leak"];
            let a = [NoMethod(1), NoNs(1), BadArgs(1), Garbage, Open(Count, 2, 1), Open(Never, 0, 1), Cancel(1), GetAs(1), Nop];
            add("bad requests among streams, one client", true, one(seqs(&a, q(3, 4))), q(3, 3), R);
            let b = [NoMethod(1), Garbage, Open(Count, 1, 1), Get, Drop];
            let v = seqs(&b, 2).into_iter().filter(nothing_after_drop).collect::<Vec<_>>();
            add("bad requests, two clients", false, pairs(&v, &v), q(2, 4), R);
            const T: &[&str] = &["text", "panic", "alive"];
            cases("texts over the WebSocket endpoint", texts::texts(false).into_iter().map(Case::WsText).collect(), 0, T);
            cases("texts", texts::texts(thorough).into_iter().map(Case::Text).collect(), 0, T);
        }
        "C09" => {
            const R: &[&str] = &["answers", "calls", "overlap", "effects", "alive", "panic"];
            let a = [Add(1), Get, SideGet, BadRet, Nop, Slow(0), Recv, NoMethod(7), Open(Count, 1, 1)];
            add("one client", false, one(seqs(&a, q(3, 4))), q(2, 4), R);
            let b = [Add(1), Add(2), Get, BadRet, Slow(0), Recv];
            let v = seqs(&b, 2);
            add("two clients", false, pairs(&v, &v), q(1, 3), R);
            if thorough {
                let w = seqs(&[Add(1), Get, BadRet, Open(Burst, 2, 1)], 3);
                add("two clients, longer", false, pairs(&w, &w), 2, R);
            }
            let c = seqs(&[Add(1), SideAdd(1)], q(1, 2));
            add("three clients", false, c.iter().flat_map(|x| c.iter().flat_map({ let c = c.clone(); move |y| c.clone().into_iter().map({ let y = y.clone(); let x = x.clone(); move |z| vec![x.clone(), y.clone(), z] }).collect::<Vec<_>>() })).collect(), 3, R);
            let many = |n: usize, f: &dyn Fn(usize) -> Act| (0..n).map(f).collect::<Script>();
            let mut long = vec![];
            for n in [33, 129, 300] {
                long.push(vec![many(n, &|i| [Add(1), Get, SideAdd(2), BadRet, Nop][i % 5])]);
                long.push(vec![many(n, &|i| if i == 0 { Slow(0) } else { Add(1) }), many(n, &|_| SideAdd(1))]);
                long.push((0..n).map(|i| vec![Add(i as i32), BadRet]).collect());
            }
            add("many requests, many clients", false, long, 0, R);
            let d = seqs(&[Add(1), BadRet, Slow(0), Open(Count, 1, 1), Drop, DropTx], 2).into_iter().filter(nothing_after_drop).collect::<Vec<_>>();
            let e = seqs(&[Add(2), BadRet], 2);
            add("a client that leaves", false, pairs(&d, &e), q(1, 3), R);
        }
        "C10" => {
            const R: &[&str] = &["items", "tag", "item-order", "stalled", "stopped", "stream-twice", "stream-never", "blocked", "answers", "panic", "alive"];
            let a = [Open(Count, 2, 1), Open(Burst, 3, 2), Open(Bad, 0, 3), Open(Gated(0), 0, 4), Open(Forever, 0, 5), Open(Empty, 0, 6), SideOpen(1, 7), Get, OpenGate(0), Cancel(1)];
            let distinct = |s: &Script| { let mut ids: Vec<_> = s.iter().filter(|a| matches!(a, Open(..) | SideOpen(..))).map(|a| a.id(0)).collect(); let n = ids.len(); ids.sort(); ids.dedup(); ids.len() == n };
            add("streams of one client", true, one(seqs(&a, q(3, 4)).into_iter().filter(distinct).collect()), q(2, 3), R);
            let b = [Open(Count, 2, 1), Open(Burst, 2, 1), Open(Bad, 0, 1), Open(Never, 0, 1), Open(Gated(0), 0, 1), Open(Forever, 0, 1), Get];
            let v = seqs(&b, 1);
            add("equal ids on two connections", false, pairs(&v, &v), q(2, 4), R);
            let mut long = vec![];
            for n in [33u32, 129, 1025] {
                long.push(vec![vec![Open(Burst, n, 1), Open(Count, n.min(99), 2), Get]]);
                let m = n.min(129) as usize;
                long.push(vec![(0..m).map(|i| Open(if i % 2 == 0 { Count } else { Burst }, 2, 1000 + i)).chain([Get]).collect()]);
                long.push((0..m).map(|i| vec![Open([Count, Burst, Bad][i % 3], 2, 1)]).collect());
            }
            add("many items, streams and clients", false, long, 0, R);
            let w = seqs(&[Open(Count, 2, 1), Open(Burst, 2, 2), Get, Cancel(1), Recv, Slow(0)], 2);
            add("two clients", false, pairs(&w, &w), q(1, 2), R);
            let d = seqs(&[Open(Count, 2, 1), Open(Burst, 2, 1), Open(Never, 0, 1), Drop, Cancel(1)], 2).into_iter().filter(nothing_after_drop).collect::<Vec<_>>();
            let e = seqs(&[Open(Count, 2, 1), Open(Bad, 0, 2)], 1);
            add("a client that leaves", false, pairs(&d, &e), q(1, 3), R);
        }
        "C11" => {
            const R: &[&str] = &["after-cancel", "cancel-leak", "leak", "stopped", "stalled", "items", "answers", "panic", "alive"];
            let a = [Open(Count, 2, 1), Open(Never, 0, 1), Open(Forever, 0, 2), Open(Gated(0), 0, 2), Cancel(1), Cancel(2), Cancel(9), GetAs(1), BadArgs(2), Drop];
            add("cancel and drop, one client", true, one(seqs(&a, q(3, 4))), q(2, 3), R);
            let long = [Open(Never, 0, 1), Open(Burst, 1, 1), Cancel(1), Drop];
            let mut many = vec![];
            for n in [9usize, 17, 33, 65, 129, 300] {
                let open: Script = (0..n).map(|i| Open(if i % 3 == 0 { Forever } else { Never }, 0, 1000 + i)).collect();
                let with = |v: Vec<Act>| open.iter().copied().chain(v).collect::<Script>();
                many.push(vec![with(vec![])]);
                many.push(vec![with(vec![Drop])]);
                many.push(vec![with((0..n).step_by(2).map(|i| Cancel(1000 + i)).collect())]);
                many.push(vec![with((0..n).rev().map(|i| Cancel(1000 + i)).chain([Get]).collect())]);
                many.push(vec![(0..n).map(|_| Open(Never, 0, 1)).chain([Cancel(1), Open(Count, 2, 1)]).collect()]);
            }
            add("many streams", true, many.clone(), 0, R);
            add("many streams of a connection", false, many, 0, R);
            add("one id over and over", true, one(seqs(&long, q(5, 6))), q(2, 2), R);
            let b = [Open(Count, 2, 1), Open(Never, 0, 1), Cancel(1), Get, Recv, Drop];
            let v = seqs(&b, q(2, 3)).into_iter().filter(nothing_after_drop).collect::<Vec<_>>();
            let w = seqs(&[Open(Never, 0, 1), Open(Count, 2, 1), Cancel(1)], 2);
            add("equal ids on two connections", false, pairs(&v, &w), q(2, 2), R);
        }
        "C12" => {
            const R: &[&str] = &["answers", "calls", "items", "tag", "stopped", "stalled", "leak", "cancel-leak", "alive", "panic", "after-cancel", "stream-never", "backend-leak"];
            let a = [Open(Count, 2, 1), Open(Never, 0, 1), Cancel(1), Slow(0), Garbage, NoMethod(1), Drop];
            let v = seqs(&a, q(2, 3)).into_iter().filter(nothing_after_drop).collect::<Vec<_>>();
            let b = seqs(&[Open(Count, 2, 1), SideGet, Open(Never, 0, 1)], q(1, 2));
            add("a client next to another", false, pairs(&v, &b), q(3, 2), R);
            let d = [Add(1), Slow(0), Slow(1), Open(Gated(0), 0, 1), Open(Burst, 2, 1), DropTx, Drop];
            let v = seqs(&d, q(2, 3)).into_iter().filter(|s| nothing_after_drop(s) && s.iter().any(|a| matches!(a, Drop | DropTx))).collect::<Vec<_>>();
            let e = seqs(&[SideAdd(1), Open(Count, 1, 1), OpenGate(0)], q(2, 2));
            add("leaving at any moment", false, pairs(&v, &e), q(2, 2), R);
            let g = vec![vec![Drop], vec![Get, Drop], vec![Open(Never, 0, 1), Drop], vec![Slow(0), Drop], vec![Open(Never, 0, 1), Slow(0), Drop]];
            let mut three = vec![];
            for x in &g { for y in &g { three.push(vec![x.clone(), y.clone(), vec![Open(Count, 1, 1), SideGet]]); } }
            add("three clients", false, three, q(2, 3), R);
            let mut many = vec![];
            for n in [17usize, 65, 200] {
                for k in 0..3 {
                    many.push((0..n).map(|i| if i % 3 == k { vec![Open(Never, 0, 1), Drop] } else if i % 3 == (k + 1) % 3 { vec![Open(Count, 3, 1), SideGet] } else { vec![Slow(0), Drop] }).collect());
                }
            }
            add("many clients", false, many, 0, R);
        }
        "C13" => {
            const R: &[&str] = &["answers", "calls", "items", "tag", "stopped", "stalled", "leak", "alive", "panic", "stream-never", "stream-twice", "blocked", "frame", "session", "effects"];
            let raws: Vec<String> = texts::texts(false).into_iter().filter(|t| !t.is_empty() && t.len() < 60).filter(|t| texts::reference(t) == texts::Verdict { act: None, errors: vec![None] }).collect();
            let raw = |t: &str| F::Raw(t.to_string());
            // every frame, alone and in sequence
            let a = [F::T(Add(1)), F::Frag(Get), F::Split(Add(2)), F::Late(Add(3)), raw("{"), F::Bin(Add(4)), F::Ping, F::Pong, F::T(Open(Count, 2, 1)), F::T(Cancel(1)), F::T(BadRet), F::T(NoMethod(3)), F::Recv, F::Close, F::CloseCode, F::Drop, F::BadUtf8, F::Unmasked];
            let ok = |s: &Vec<F>| s.iter().position(|f| f.ends()).map_or(true, |p| p + 1 == s.len());
            let v: Vec<Vec<F>> = fseqs(&a, q(2, 3)).into_iter().filter(ok).collect();
            cases("one session", v.iter().map(|s| Case::Ws(vec![s.clone()], 1 << 16)).collect(), q(2, 1), R);
            if thorough {
                cases("one session, three deviations", fseqs(&a, 1).into_iter().filter(ok).map(|s| Case::Ws(vec![s], 1 << 16)).collect(), 3, R);
            }
            cases("a narrow pipe", fseqs(&a, 2).into_iter().filter(ok).map(|s| Case::Ws(vec![s], 16)).collect(), 1, R);
            // text that is no request
            cases("text that is no request", raws.iter().map(|t| Case::Ws(vec![vec![F::Raw(t.clone()), F::T(Get), F::Raw(t.clone())]], 1 << 16)).collect(), q(0, 1), R);
            // long messages
            cases("long messages", [10, 60, 100, 1000, 65_000, 66_000, 500_000, 2_000_000].into_iter().flat_map(|n| [F::T(Echo(n)), F::Frag(Echo(n)), F::Split(Echo(n))].map(|f| Case::Ws(vec![vec![f, F::T(Get)]], 1 << 16))).collect(), 0, R);
            // a client that does not read
            let h = [F::T(Open(Burst, 5, 1)), F::T(Open(Forever, 0, 2)), F::T(Add(1)), raw("x"), F::Ping, F::Close, F::Drop];
            cases("a client that does not read", fseqs(&h, 3).into_iter().filter(ok).filter(|s| !s[..s.len() - 1].iter().any(|f| matches!(f, F::Ping))).flat_map(|s| { let mut s = s; s.insert(0, F::Hold); [Case::Ws(vec![s.clone()], 64), Case::Ws(vec![s, vec![F::T(Add(1)), F::T(SideGet)]], 64)] }).collect(), 1, R);
            // sessions next to each other
            let b = [F::T(Add(1)), F::T(Open(Count, 2, 1)), F::T(Open(Never, 0, 1)), F::T(Slow(0)), F::T(Cancel(1)), raw("?"), F::Close, F::Drop, F::BadUtf8];
            let v: Vec<Vec<F>> = fseqs(&b, 2).into_iter().filter(ok).collect();
            let w: Vec<Vec<F>> = fseqs(&[F::T(Add(2)), F::T(Open(Count, 2, 1)), raw("?"), F::T(SideGet)], q(1, 2));
            cases("two sessions", v.iter().flat_map(|x| w.iter().map(move |y| Case::Ws(vec![x.clone(), y.clone()], 1 << 16))).collect(), 1, R);
            if thorough {
                cases("two sessions, two deviations", v.iter().flat_map(|x| w[..2].iter().map(move |y| Case::Ws(vec![x.clone(), y.clone()], 1 << 16))).collect(), 2, R);
            }
        }
        _ => panic!("unknown property"),
    }
    f.into_inner()
}
/// ordered pairs; when both sides come from the same list every unordered pair once
fn pairs(a: &[Script], b: &[Script]) -> Vec<Vec<Script>> {
    let same = a == b;
    let mut out = vec![];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            if !same || i <= j {
                out.push(vec![x.clone(), y.clone()]);
            }
        }
    }
    out
}

enum Case {
    Handle(Script),
    Proxy(Vec<Script>),
    Ws(Vec<Vec<F>>, usize),
    Text(String),
    WsText(String),
}
impl Case {
    fn text(&self) -> String {
        use std::hash::{Hash, Hasher};
        let t = self.full_text();
        if t.chars().count() <= 500 {
            return t;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        format!("{}.. #{:016x}", t.chars().take(500).collect::<String>(), h.finish())
    }
    fn full_text(&self) -> String {
        match self {
            Case::Handle(s) => format!("{:?}", [s]),
            Case::Proxy(s) => format!("{s:?}"),
            Case::Ws(s, cap) => format!("{s:?} pipe {cap}"),
            Case::Text(t) | Case::WsText(t) => t.clone(),
        }
    }
    fn run(&self) -> scn::Run {
        match self {
            Case::Handle(s) => scn::run_handle(s),
            Case::Proxy(s) => scn::run_proxy(s),
            Case::Ws(s, cap) => ws::run(s, *cap),
            Case::Text(t) => textrun::direct(t),
            Case::WsText(t) => textrun::over_ws(t),
        }
    }
    fn judge(&self, r: &scn::Run) -> Vec<(&'static str, String)> {
        match self {
            Case::Handle(s) => scn::judge(std::slice::from_ref(s), r, true),
            Case::Proxy(s) => scn::judge(s, r, false),
            Case::Ws(s, _) => scn::judge(&s.iter().map(|s| ws::acts(s)).collect::<Vec<_>>(), r, false),
            Case::Text(t) | Case::WsText(t) => textrun::judge(t, r).map(|w| ("text", w)).into_iter().collect(),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "module" {
        print!("{}", <api::Api as zod::rpc::Backend>::generate::<zod::rpc::clients::WebsocketClient>());
        return;
    }
    let (prop, thorough, shard, shards) = (&a[1], a[2] == "thorough", a[3].parse::<usize>().unwrap(), a[4].parse::<usize>().unwrap());
    let only = a.get(5).cloned();
    mc::watch();
    let mut fams = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    for fam in families(prop, thorough) {
        let mut st = mc::Stats::default();
        let mut kinds: std::collections::BTreeSet<u64> = Default::default();
        let t0 = std::time::Instant::now();
        for (i, sc) in fam.cases.iter().enumerate() {
            if i % shards != shard {
                continue;
            }
            let text = sc.text();
            let case = format!("{}|{}", fam.name, text);
            if only.as_ref().is_some_and(|o| *o != case) {
                continue;
            }
            let mut found: Option<Value> = None;
            mc::at(&case);
            let s = mc::explore(fam.budget, 200_000, || sc.run(), |out, picks| {
                let bad: Vec<(&str, String)> = match out {
                    Outcome::Done(r) => {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        format!("{:?}", r.log).hash(&mut h);
                        kinds.insert(h.finish());
                        if only.is_some() || samples.len() < 2 && r.log.len() > 6 && r.log.len() < 200 {
                            samples.push(json!({"family": fam.name, "scripts": text, "choices": picks, "log": r.log.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
                        }
                        sc.judge(&r)
                    }
                    Outcome::Panicked(m) => vec![("panic", format!("panic: {m}"))],
                    Outcome::StepLimit => vec![("alive", format!("no end after {} steps", mc::STEP_LIMIT))],
                };
                if let Some((rule, what)) = bad.iter().find(|b| fam.rules.contains(&b.0)) {
                    found = Some(json!({"case": format!("{case}|{rule}"), "detail": what, "choices": picks}));
                    return false;
                }
                true
            });
            st.add(&s);
            violations.extend(found);
        }
        fams.push(json!({"family": fam.name, "budget": fam.budget, "stats": st, "distinct_histories": kinds.len(), "seconds": t0.elapsed().as_secs_f64()}));
    }
    println!("{}", json!({"families": fams, "violations": violations, "samples": samples}));
}

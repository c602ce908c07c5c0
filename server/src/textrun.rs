//! Each text is sent to a backend with a running stream, followed by a call; what happened is compared to the reference.
use crate::scn::{self, Act, Run};
use crate::texts::{self, Verdict};
use crate::world::Ev;
use crate::ws::{self, F};
use serde_json::Value;
use zod::rpc::{Request, Response};

/// the text as the WebSocket endpoint gets it
pub fn over_ws(text: &str) -> Run {
    ws::run(&[vec![F::T(Act::Open(crate::api::Kind::Never, 0, 1)), F::Text(text.to_string()), F::T(Act::Get)]], 1 << 16)
}

/// the text as any other endpoint would hand it over
pub fn direct(text: &str) -> Run {
    scn::run_handle_with(&[Act::Open(crate::api::Kind::Never, 0, 1), Act::Yield, Act::Get], |i| {
        (i == 1).then(|| serde_json::from_str::<Request>(text).map_err(|e| Response::error(None, e)))
    })
}

pub fn judge(text: &str, run: &Run) -> Option<String> {
    let v = texts::reference(text);
    if let Some(w) = run.wire.first() {
        return Some(w.1.clone());
    }
    if !run.alive {
        return Some("the backend does not answer a later request".into());
    }
    let log = &run.log;
    let end = log.iter().position(|e| *e == Ev::Mark("drop".into())).unwrap_or(log.len());
    let mut enters: Vec<&String> = vec![];
    let mut opens: Vec<(u32, &String)> = vec![];
    let mut drops = vec![];
    let mut recvs: Vec<&Value> = vec![];
    for e in &log[..end] {
        match e {
            Ev::Enter { what, .. } => enters.push(what),
            Ev::Open { serial, what, .. } => opens.push((*serial, what)),
            Ev::Drop { serial } => drops.push(*serial),
            Ev::Recv { v, .. } => recvs.push(v),
            _ => {}
        }
    }
    if enters.last() != Some(&&"get".to_string()) {
        return Some("the call after it does not run".into());
    }
    enters.pop();
    if opens.first().map(|o| o.0) != Some(1) {
        return Some("the stream before it does not start".into());
    }
    let last = recvs.iter().position(|r| r["method"]["id"] == 52);
    let Some(last) = last else { return Some("the call after it gets no answer".into()) };
    let cancelled = drops.contains(&1);
    let before: Vec<&Value> = recvs[..last].to_vec();
    let (items, answers): (Vec<&Value>, Vec<&Value>) = recvs.iter().filter(|r| r["method"]["id"] != 52).partition(|r| r.get("stream").is_some());

    let errors = |v: &Verdict| -> Result<(), String> {
        if v.errors.is_empty() {
            return Err("must not be refused".into());
        }
        let [r] = &answers[..] else { return Err(format!("one error expected, got {answers:?}")) };
        let Some(e) = r.get("error") else { return Err(format!("one error expected, got {r}")) };
        let id = e["id"].as_u64();
        if !(e["id"].is_null() || id.is_some()) || !v.errors.contains(&id) {
            return Err(format!("the error has id {}, expected {:?}", e["id"], v.errors));
        }
        if e.get("data").is_none() {
            return Err(format!("an error without data: {r}"));
        }
        if !before.contains(r) {
            return Err("the error comes after the answer to the next request".into());
        }
        if !enters.is_empty() || opens.len() > 1 || cancelled || !items.is_empty() {
            return Err(format!("refused, yet {enters:?} ran, {} streams started, {:?} stopped", opens.len() - 1, drops));
        }
        Ok(())
    };
    let does = |a: &texts::Act| -> Result<(), String> {
        match a {
            texts::Act::Call { what, .. } if what == "*" => {
                // one thing: at most one call, or one stream, and one answer
                if enters.len() + opens.len() - 1 > 1 || answers.len() > 1 {
                    return Err(format!("more than one thing happened: {enters:?}, {answers:?}"));
                }
                Ok(())
            }
            texts::Act::Call { id, what, data } => {
                if enters != [what] {
                    return Err(format!("{what:?} must run, ran {enters:?}; answers {answers:?}"));
                }
                if opens.len() > 1 || cancelled || !items.is_empty() {
                    return Err("a call started or stopped a stream".into());
                }
                let [r] = &answers[..] else { return Err(format!("one response expected, got {answers:?}")) };
                let want: Value = serde_json::from_str(data).unwrap();
                if r["method"]["id"].as_u64() != Some(*id) || r["method"]["data"] != want || !before.contains(r) {
                    return Err(format!("expected result {data} of {id} before the next, got {r}"));
                }
                Ok(())
            }
            texts::Act::Open { id, n } => {
                let want = format!("Count {n}");
                if !enters.is_empty() || !answers.is_empty() || opens.len() != 2 || *opens[1].1 != want {
                    return Err(format!("stream {want:?} must start and nothing else: {opens:?}, {enters:?}, {answers:?}"));
                }
                if cancelled != (*id == 1) {
                    return Err("the other stream".into());
                }
                if *n < 100 && (items.len() != *n as usize || items.iter().any(|i| i["stream"]["id"].as_u64() != Some(*id))) {
                    return Err(format!("{n} items expected, got {items:?}"));
                }
                Ok(())
            }
            texts::Act::Cancel { id } => {
                if !enters.is_empty() || !answers.is_empty() || opens.len() != 1 || !items.is_empty() {
                    return Err(format!("a cancellation is silent: {enters:?}, {answers:?}"));
                }
                if cancelled != (*id == 1) {
                    return Err(format!("cancelled id {id}, stream 1 stopped: {cancelled}"));
                }
                Ok(())
            }
        }
    };
    let a = v.act.as_ref().map(does);
    let e = errors(&v);
    match (a, e) {
        (Some(Ok(())), _) | (_, Ok(())) => None,
        (Some(Err(w)), Err(x)) => Some(if v.errors.is_empty() { w } else { format!("{w}; or: {x}") }),
        (None, Err(x)) => Some(x),
    }
}

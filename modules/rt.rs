// Run-time side of the modules engine: dumps what the library generates and serves requests given as text.
use futures::StreamExt;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use zod::rpc::{Backend, Request, SubscriberMap};

thread_local! {
    static CALLS: RefCell<Vec<serde_json::Value>> = RefCell::new(vec![]);
    static RET: RefCell<String> = RefCell::new(String::new());
}
/// as text: a JSON value has no room for every integer
pub fn text<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap()
}
pub fn called(ns: &str, method: &str, args: Vec<String>) {
    CALLS.with(|c| c.borrow_mut().push(serde_json::json!([ns, method, args])));
}
pub fn ret<T: serde::de::DeserializeOwned>() -> T {
    RET.with(|r| serde_json::from_str(&r.borrow())).expect("harness: the value to return")
}

pub fn dump<B: Backend>() -> serde_json::Value {
    let module = B::generate::<zod::rpc::clients::WebsocketClient>();
    let types: std::collections::BTreeMap<_, Vec<_>> = B::zod_namespaces().into_iter().map(|(k, v)| (k, v.into_iter().map(|d| (d.namespace(), d.name())).collect())).collect();
    serde_json::json!({"module": module, "types": types, "methods": B::rpc_members(), "names": B::NS_NAMES})
}
pub fn members<N: zod::Namespace>() -> serde_json::Value {
    serde_json::json!({"name": N::NAME, "members": N::members().into_iter().map(|d| (d.namespace(), d.name())).collect::<Vec<_>>()})
}
pub fn serve<B: Backend + Send>(mut b: B, wire: &str, r: String) -> serde_json::Value {
    CALLS.with(|c| c.borrow_mut().clear());
    RET.with(|x| *x.borrow_mut() = r);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let mut responses = vec![];
    rt.block_on(async {
        let (tx, mut rx) = futures::channel::mpsc::unbounded();
        let mut subs = SubscriberMap::default();
        match serde_json::from_str::<Request>(wire) {
            Ok(req) => b.handle_request(req, tx, &mut subs).await,
            Err(e) => responses.push(serde_json::json!({"unreadable": e.to_string()})),
        }
        while let Ok(Some(x)) = tokio::time::timeout(std::time::Duration::from_secs(10), rx.next()).await {
            responses.push(serde_json::to_value(&x).unwrap());
        }
    });
    serde_json::json!({"calls": CALLS.with(|c| c.borrow().clone()), "responses": responses})
}
type Serve = fn(&str, String) -> serde_json::Value;
pub fn main(backends: &[(&str, fn() -> serde_json::Value, Serve)], namespaces: &[(&str, fn() -> serde_json::Value)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::stdin().lock().lines() {
        let v: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let key = v["key"].as_str().unwrap();
        let guard = |f: &dyn Fn() -> serde_json::Value| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                serde_json::json!({"panic": m})
            })
        };
        let r = match v["op"].as_str().unwrap() {
            "dump" => guard(&|| backends.iter().find(|b| b.0 == key).unwrap().1()),
            "members" => guard(&|| namespaces.iter().find(|b| b.0 == key).unwrap().1()),
            "collect" => {
                let all: Vec<_> = zod::NamespaceMemberDefinition::collect().into_iter().map(|(k, v)| (k, v.into_iter().map(|d| (d.namespace(), d.name())).collect::<Vec<_>>())).collect();
                serde_json::json!(all)
            }
            _ => guard(&|| backends.iter().find(|b| b.0 == key).unwrap().2(v["wire"].as_str().unwrap(), v["ret"].as_str().unwrap_or("null").to_string())),
        };
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}

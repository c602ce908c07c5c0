HEAD = '''use futures::{channel::mpsc::unbounded, stream, FutureExt, Stream, StreamExt};
use serde_json::{json, Value};
use zod::rpc::{servers::proxy::{BackendProxy, ProxyRx, ProxyTx}, Backend, Request, SubscriberMap};
use std::sync::atomic::{AtomicUsize, Ordering};

static ALIVE: AtomicUsize = AtomicUsize::new(0);
struct Guard;
impl Guard { fn new() -> Self { ALIVE.fetch_add(1, Ordering::SeqCst); Guard } }
impl Drop for Guard { fn drop(&mut self) { ALIVE.fetch_sub(1, Ordering::SeqCst); } }

pub struct Odd(u32);
impl serde::Serialize for Odd {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 % 2 == 1 { return Err(serde::ser::Error::custom("odd")); }
        s.serialize_u32(self.0)
    }
}
impl zod::ZodType for Odd {
    fn schema() -> String { "z.any()".into() }
    fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("any".into()) }
}

#[derive(zod::Namespace)]
pub struct Ns(u32);
#[zod::rpc::namespace]
impl Ns {
    pub async fn incr(&mut self) -> u32 { self.0 += 1; self.0 }
    pub async fn odd(&mut self, n: u32) -> Odd { Odd(n) }
    pub fn odds(&mut self, n: u32) -> impl Stream<Item = Odd> { stream::iter((0..n).map(Odd)) }
    pub fn never(&mut self) -> impl Stream<Item = u32> { let g = Guard::new(); stream::pending().map(move |x: u32| { let _ = &g; x }) }
}
#[derive(zod::rpc::Backend)]
pub struct B(Ns);

fn call(id: usize, m: &str, args: Value) -> Value { json!({"exec": {"id": id, "namespace": "Ns", "method": m, "args": args}}) }
fn cancel(id: usize) -> Value { json!({"cancelStream": {"id": id}}) }
async fn settle() { tokio::time::sleep(std::time::Duration::from_millis(30)).await }

/// everything that is answered to these requests on one connection
#[allow(dead_code)]
async fn direct(reqs: &[Value]) -> Vec<Value> {
    let mut b = B(Ns(0));
    let (tx, mut rx) = unbounded();
    let mut subs = SubscriberMap::default();
    let mut out = vec![];
    for r in reqs {
        match serde_json::from_value::<Request>(r.clone()) {
            Ok(r) => b.handle_request(r, tx.clone(), &mut subs).await,
            Err(_) => out.push(json!("refused")),
        }
        settle().await;
        while let Some(Some(r)) = rx.next().now_or_never() { out.push(serde_json::to_value(&r).unwrap()); }
    }
    out.push(json!(ALIVE.load(Ordering::SeqCst)));
    drop(subs);
    settle().await;
    out.push(json!(ALIVE.load(Ordering::SeqCst)));
    out
}
#[allow(dead_code)]
fn proxy() -> BackendProxy { BackendProxy::new(B(Ns(0))) }
#[allow(dead_code)]
fn send(tx: &ProxyTx, v: Value) { let _ = tx.send(serde_json::from_value(v).map_err(|e| zod::rpc::Response::error(None, e))); }
#[allow(dead_code)]
fn got(rx: &mut ProxyRx) -> Vec<Value> { let mut o = vec![]; while let Some(Some(r)) = rx.next().now_or_never() { o.push(serde_json::to_value(&r).unwrap()); } o }
'''
M = HEAD + '#[tokio::main(flavor = "current_thread")]\nasync fn main() {\n'
WS = '''
use axum::{routing::get, Extension, Router};
use tokio::{io::{AsyncReadExt, AsyncWriteExt}, net::TcpStream};
async fn serve() -> std::net::SocketAddr {
    let app = Router::new().route("/ws", get(zod::rpc::servers::axum::websocket_handler)).layer(Extension(proxy()));
    let s = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
    let a = s.local_addr();
    tokio::spawn(s);
    a
}
fn frame(op: u8, data: &[u8]) -> Vec<u8> {
    assert!(data.len() < 126);
    let mut v = vec![0x80 | op, 0x80 | data.len() as u8, 0, 0, 0, 0];
    v.extend(data);
    v
}
async fn client(a: std::net::SocketAddr) -> TcpStream {
    let mut s = TcpStream::connect(a).await.unwrap();
    s.write_all(b"GET /ws HTTP/1.1\\r\\nHost: x\\r\\nConnection: Upgrade\\r\\nUpgrade: websocket\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n").await.unwrap();
    let mut head = vec![];
    while !head.ends_with(b"\\r\\n\\r\\n") { head.push(s.read_u8().await.unwrap()); }
    s
}
/// the texts that arrive within a moment
async fn texts(s: &mut TcpStream) -> Vec<Value> {
    let mut o = vec![];
    loop {
        let r = tokio::time::timeout(std::time::Duration::from_millis(300), async {
            let op = s.read_u8().await.ok()?;
            let n = match s.read_u8().await.ok()? { 126 => s.read_u16().await.ok()? as usize, n => n as usize };
            let mut v = vec![0; n];
            s.read_exact(&mut v).await.ok()?;
            Some((op, v))
        }).await;
        match r { Ok(Some((0x81, v))) => o.push(serde_json::from_slice(&v).unwrap()), Ok(Some(_)) => {}, Ok(None) => { o.push(json!("closed")); return o }, Err(_) => return o }
    }
}
'''
DEMO_WS = open(K + '/demo_rust.sh').read().replace('futures = "0.3"\n', 'futures = "0.3"\naxum = { version = "0.6", features = ["ws"] }\n').replace('"sync"]', '"sync", "net", "io-util"]')
W = HEAD + WS + '#[tokio::main(flavor = "current_thread")]\nasync fn main() {\n'
SEEDS = [
 dict(id='c08-cancel-without-id', property='C08', needs='a cancel request without an id while stream 0 is running', breaks='it stops stream 0 instead of being refused',
  edits=[('core/src/rpc/mod.rs', '''    CancelStream {
        id: usize,''', '''    CancelStream {
        #[serde(default)]
        id: usize,''')],
  main=M+'''
    let r = direct(&[call(0, "never", json!([])), json!({"cancelStream": {}}), call(1, "incr", json!([]))]).await;
    assert_eq!(r, [json!("refused"), json!({"method": {"id": 1, "data": 1}}), json!(1), json!(0)]);
}'''),
 dict(id='c09-unserializable-result-id', property='C09', needs='a method whose result does not serialize', breaks='the error response has no id, the caller waits for ever',
  edits=[('core/src/rpc/mod.rs', 'Err(data) => Self::error(id, data)', 'Err(data) => Self::error(None, data)')],
  main=M+'''
    let r = direct(&[call(3, "odd", json!([4])), call(4, "odd", json!([5])), call(5, "incr", json!([]))]).await;
    assert_eq!(r[0], json!({"method": {"id": 3, "data": 4}}));
    assert_eq!(r[1]["error"]["id"], 4);
    assert_eq!(r[2], json!({"method": {"id": 5, "data": 1}}));
}'''),
 dict(id='c10-bad-item-ends-stream', property='C10', needs='a stream with an item that does not serialize before others', breaks='the stream ends at the first item that does not serialize',
  edits=[('derive/src/rpc/impl_rpc.rs', '''                            if let ::std::result::Result::<_, _>::Err(err) = sender
                                .unbounded_send(#__private::Response::stream(id, evt))
                            {''', '''                            let item = #__private::Response::stream(id, evt);
                            let failed = ::std::matches!(item, #__private::Response::Error { .. });
                            let sent = sender.unbounded_send(item);
                            if failed {
                                break;
                            }
                            if let ::std::result::Result::<_, _>::Err(err) = sent {''')],
  main=M+'''
    let r = direct(&[call(3, "odds", json!([4]))]).await;
    let ids: Vec<_> = r[..4].iter().map(|r| r["stream"]["id"].as_u64().or(r["error"]["id"].as_u64())).collect();
    assert_eq!(ids, [Some(3); 4], "{r:?}");
    assert_eq!((&r[0]["stream"]["data"], &r[2]["stream"]["data"]), (&json!(0), &json!(2)));
}'''),
 dict(id='c11-refused-request-forgets-stream', property='C11', needs='a refused request with the id of a running stream, and a cancellation after it', breaks='the stream can no longer be stopped, not even by dropping the subscriptions',
  edits=[('derive/src/rpc/backend_impl.rs', '''                            ::std::result::Result::<_, _>::Err(err) => {
                                let _ = sender''', '''                            ::std::result::Result::<_, _>::Err(err) => {
                                // the id is free again
                                subscribers.remove(&id);
                                let _ = sender''')],
  main=M+'''
    let r = direct(&[call(3, "never", json!([])), call(3, "nope", json!([])), cancel(3)]).await;
    assert_eq!(r[0]["error"]["id"], 3);
    assert_eq!(r[1..], [json!(0), json!(0)]);
}'''),
 dict(id='c11-drop-stops-only-some', property='C11', needs='more than 32 running streams when their client goes away', breaks='the streams beyond the first 32 are never stopped',
  edits=[('core/src/rpc/server.rs', 'for (_, jh) in self.inner.drain() {', 'for (_, jh) in self.inner.drain().take(32) {')],
  main=M+'''
    let reqs: Vec<_> = (0..40).map(|i| call(i, "never", json!([]))).collect();
    let r = direct(&reqs).await;
    assert_eq!(r, [json!(40), json!(0)]);
}'''),
 dict(id='c13-binary-frames', property='C13', needs='a binary frame with the bytes of a request', breaks='binary frames are handled like text',
  edits=[('src/rpc/servers/axum.rs', '''            if let Message::Text(json) = message {
                let req''', '''            let json = match message {
                Message::Text(json) => Some(json),
                Message::Binary(bytes) => String::from_utf8(bytes).ok(),
                _ => None,
            };
            if let Some(json) = json {
                let req''')],
  demo=DEMO_WS, main=W+'''
    let a = serve().await;
    let mut c = client(a).await;
    c.write_all(&frame(2, call(1, "incr", json!([])).to_string().as_bytes())).await.unwrap();
    c.write_all(&frame(1, call(2, "incr", json!([])).to_string().as_bytes())).await.unwrap();
    assert_eq!(texts(&mut c).await, [json!({"method": {"id": 2, "data": 1}})]);
}'''),
 dict(id='c13-blank-text', property='C13', needs='a text frame without anything in it', breaks='it gets no error response',
  edits=[('src/rpc/servers/axum.rs', '''            if let Message::Text(json) = message {
''', '''            if let Message::Text(json) = message {
                if json.trim().is_empty() {
                    // keep-alive
                    continue;
                }
''')],
  demo=DEMO_WS, main=W+'''
    let a = serve().await;
    let mut c = client(a).await;
    c.write_all(&frame(1, b"")).await.unwrap();
    c.write_all(&frame(1, call(2, "incr", json!([])).to_string().as_bytes())).await.unwrap();
    let r = texts(&mut c).await;
    assert_eq!(r.len(), 2, "{r:?}");
    assert!(r[0]["error"]["id"].is_null() && r[0]["error"]["data"].is_object() && r[1]["method"]["id"] == 2);
}'''),
 dict(id='c13-session-outlives-peer', property='C13', needs='a peer that goes away while a stream that never yields is running', breaks='the session waits for the next response before it ends: its streams are never released',
  edits=[('src/rpc/servers/axum.rs', '''    futures::select! {
        _ = fut1.fuse() => {}
        _ = fut2.fuse() => {}
    }''', '''    let _ = fut1.fuse();
    futures::join!(fut1, fut2);''')],
  demo=DEMO_WS, main=W+'''
    let a = serve().await;
    let mut c = client(a).await;
    c.write_all(&frame(1, call(2, "never", json!([])).to_string().as_bytes())).await.unwrap();
    assert!(texts(&mut c).await.is_empty());
    assert_eq!(ALIVE.load(Ordering::SeqCst), 1);
    drop(c);
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    assert_eq!(ALIVE.load(Ordering::SeqCst), 0);
}'''),
]
SEEDS[-1]['edits'][0] = (SEEDS[-1]['edits'][0][0], SEEDS[-1]['edits'][0][1], '    futures::join!(fut1, fut2);')

//! Sessions over the real WebSocket endpoint: hyper on an in-memory pipe, a client written by hand on the other end.
use crate::api;
use crate::scn::{idle, runtime, Act, Finish, Run, Script, STOP};
use crate::world::{self, Ev};
use axum::{extract::Extension, routing::get, Router};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream, ReadHalf};
use zod::rpc::servers::{axum::websocket_handler, proxy::BackendProxy};

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    /// a request in one text frame
    T(Act),
    /// in three fragments with a ping in between
    Frag(Act),
    /// one frame that arrives in two pieces
    Split(Act),
    /// sent together with whatever is sent next
    Late(Act),
    /// a text frame with any text; the text is not a request
    Raw(String),
    /// a text frame whose text the reference has to judge
    Text(String),
    /// the bytes of a request in a binary frame
    Bin(Act),
    Ping,
    Pong,
    Recv,
    Gate(u32),
    Yield,
    Close,
    /// with a code and a reason
    CloseCode,
    Drop,
    BadUtf8,
    /// a frame whose masking bit is missing
    Unmasked,
    /// do not read anything until the end
    Hold,
}
use F::*;

impl F {
    pub fn act(&self) -> Act {
        match self {
            T(a) | Frag(a) | Split(a) | Late(a) => *a,
            Raw(_) => Act::Garbage,
            Text(_) | Bin(_) | Ping | Pong | Yield => Act::Yield,
            Hold => Act::Hold,
            F::Recv => Act::Recv,
            Gate(k) => Act::OpenGate(*k),
            Close | CloseCode | F::Drop | BadUtf8 | Unmasked => Act::Drop,
        }
    }
    pub fn ends(&self) -> bool {
        self.act() == Act::Drop
    }
}
pub fn acts(s: &[F]) -> Script {
    s.iter().map(F::act).collect()
}

fn frame(fin: bool, op: u8, masked: bool, data: &[u8]) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | op];
    let m = (masked as u8) << 7;
    match data.len() {
        n if n < 126 => v.push(m | n as u8),
        n if n < 65536 => {
            v.push(m | 126);
            v.extend((n as u16).to_be_bytes());
        }
        n => {
            v.push(m | 127);
            v.extend((n as u64).to_be_bytes());
        }
    }
    if masked {
        let key = [0x11, 0x22, 0x33, 0x44];
        v.extend(key);
        v.extend(data.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    } else {
        v.extend(data);
    }
    v
}

const HELLO: &[u8] = b"GET /ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";

fn wire(rule: &'static str, s: String) {
    world::with(|w| w.wire.push((rule, s)));
}

#[derive(Default)]
struct Shared {
    texts: usize,
    wakers: Vec<std::task::Waker>,
    eof: bool,
}

async fn read_all(con: usize, mut rx: ReadHalf<DuplexStream>, sh: Arc<Mutex<Shared>>) {
    // the head of the answer to the upgrade request
    let mut head = vec![];
    while !head.ends_with(b"\r\n\r\n") {
        match rx.read_u8().await {
            Ok(b) => head.push(b),
            Err(_) => {
                wire("session", format!("client {con} gets no answer to its upgrade request"));
                return;
            }
        }
    }
    let head = String::from_utf8_lossy(&head).to_string();
    if !head.starts_with("HTTP/1.1 101") || !head.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
        wire("session", format!("client {con} cannot connect: {head}"));
        return;
    }
    let done = |sh: &Mutex<Shared>, eof: bool| {
        let mut s = sh.lock().unwrap();
        if eof {
            s.eof = true;
        } else {
            s.texts += 1;
        }
        s.wakers.drain(..).for_each(|w| w.wake());
    };
    loop {
        let r: std::io::Result<(u8, Vec<u8>)> = async {
            let a = rx.read_u8().await?;
            let b = rx.read_u8().await?;
            let n = match b & 127 {
                126 => rx.read_u16().await? as usize,
                127 => rx.read_u64().await? as usize,
                n => n as usize,
            };
            let mut v = vec![0; n];
            rx.read_exact(&mut v).await?;
            if b & 128 != 0 {
                wire("frame", "the server masks its frames".into());
            }
            Ok((a, v))
        }
        .await;
        match r {
            Err(_) => {
                world::log(Ev::Mark(format!("eof {con}")));
                done(&sh, true);
                return;
            }
            Ok((0x81, v)) => {
                let text = String::from_utf8_lossy(&v).to_string();
                match serde_json::from_str(&text) {
                    Ok(v) => world::log(Ev::Recv { con, v }),
                    Err(e) => wire("frame", format!("client {con} gets text that is not JSON ({e}): {text}")),
                }
                done(&sh, false);
            }
            Ok((0x88 | 0x8a, _)) => {}
            Ok((op, v)) => wire("frame", format!("client {con} gets a frame {op:#x} of {} bytes", v.len())),
        }
    }
}

async fn client(con: usize, io: DuplexStream, script: Vec<F>) {
    let (rx, tx) = tokio::io::split(io);
    let mut tx = Some(tx);
    let sh = Arc::new(Mutex::new(Shared::default()));
    let hold = script.contains(&Hold);
    let reader = tokio::spawn({
        let sh = sh.clone();
        async move {
            if hold {
                world::gate(STOP - 1).await;
            }
            read_all(con, rx, sh).await
        }
    });
    let mut late: Vec<u8> = HELLO.to_vec();
    if !hold {
        let _ = tx.as_mut().unwrap().write_all(&std::mem::take(&mut late)).await;
    }
    let mut texts = 0;
    let n = script.len();
    for (i, f) in script.iter().enumerate() {
        tokio::task::yield_now().await;
        world::log(Ev::Begin { con, i });
        let text = |a: &Act| a.json(con, i).to_string().into_bytes();
        let mut pieces: Vec<Vec<u8>> = vec![];
        match f {
            T(a) | Late(a) => pieces.push(frame(true, 1, true, &text(a))),
            Frag(a) => {
                let t = text(a);
                let (x, y) = (t.len() / 3, t.len() / 2);
                pieces.push(frame(false, 1, true, &t[..x]));
                let mut p = frame(true, 9, true, b"p");
                p.extend(frame(false, 0, true, &t[x..y]));
                pieces.push(p);
                pieces.push(frame(true, 0, true, &t[y..]));
            }
            Split(a) => {
                let v = frame(true, 1, true, &text(a));
                let (x, y) = v.split_at(v.len() / 2);
                pieces.push(x.to_vec());
                pieces.push(y.to_vec());
            }
            Raw(t) | Text(t) => pieces.push(frame(true, 1, true, t.as_bytes())),
            Bin(a) => pieces.push(frame(true, 2, true, &text(a))),
            Ping => pieces.push(frame(true, 9, true, b"hi")),
            Pong => pieces.push(frame(true, 10, true, b"")),
            Close => pieces.push(frame(true, 8, true, b"")),
            CloseCode => pieces.push(frame(true, 8, true, b"\x03\xe8bye")),
            BadUtf8 => pieces.push(frame(true, 1, true, b"\"\xff\xfe\"")),
            Unmasked => pieces.push(frame(true, 1, false, b"{}")),
            Gate(k) => world::open_gate(*k),
            Yield | Hold => {}
            F::Recv => {
                let _ = tx.as_mut().unwrap().write_all(&std::mem::take(&mut late)).await;
                texts += 1;
                let more = std::future::poll_fn(|cx| {
                    let mut s = sh.lock().unwrap();
                    if s.texts >= texts || s.eof {
                        return std::task::Poll::Ready(());
                    }
                    s.wakers.push(cx.waker().clone());
                    std::task::Poll::Pending
                });
                let stop = world::gate(STOP);
                futures::pin_mut!(more, stop);
                if let futures::future::Either::Right(_) = futures::future::select(more, stop).await {
                    break;
                }
            }
            F::Drop => {
                tx = None;
                reader.abort();
            }
        }
        if let Some(tx) = &mut tx {
            let keep = matches!(f, Late(_)) && i + 1 < n;
            if !keep && pieces.is_empty() && !late.is_empty() {
                pieces.push(vec![]);
            }
            for p in pieces {
                late.extend(p);
                if !keep {
                    // a client that is closing does not have to care whether its bytes arrive
                    let _ = tx.write_all(&std::mem::take(&mut late)).await;
                    tokio::task::yield_now().await;
                }
            }
        }
        world::log(Ev::Done { con, i });
    }
    // keep the connection until the driver drops it
    world::gate(STOP).await;
    reader.abort();
    let _ = tx;
}

fn connect(app: &Router, cap: usize) -> DuplexStream {
    let (here, there) = tokio::io::duplex(cap);
    let app = app.clone();
    tokio::spawn(async move {
        let _ = hyper::server::conn::Http::new().http1_only(true).serve_connection(there, app).with_upgrades().await;
    });
    here
}

pub fn run(scripts: &[Vec<F>], cap: usize) -> Run {
    world::reset();
    let rt = runtime();
    let scripts = scripts.to_vec();
    rt.block_on(async move {
        let app = Router::new().route("/ws", get(websocket_handler)).layer(Extension(BackendProxy::new(api::api())));
        for (con, script) in scripts.iter().enumerate() {
            let io = connect(&app, cap);
            tokio::spawn(client(con, io, script.clone()));
        }
        idle().await;
        world::mark("idle");
        for k in 0..2 {
            world::open_gate(k);
        }
        idle().await;
        world::open_gate(STOP - 1);
        idle().await;
        world::mark("gates open");
        for (con, s) in scripts.iter().enumerate() {
            let p = world::with(|w| w.log.iter().position(|e| *e == Ev::Mark(format!("eof {con}"))));
            let said_bye = s.iter().position(|f| f.ends()).filter(|i| world::with(|w| w.log.contains(&Ev::Begin { con, i: *i })));
            match (said_bye, p) {
                (None, Some(_)) => wire("session", format!("the connection of client {con} is closed by the server")),
                (Some(i), None) if s[i] != F::Drop => wire("session", format!("the connection of client {con} stays open after {:?}", s[i])),
                _ => {}
            }
        }
        world::mark("drop");
        world::open_gate(STOP);
        idle().await;
        world::mark("dropped");
        // a later connection
        let before = world::with(|w| {
            w.gates.remove(&STOP);
            w.log.len()
        });
        let io = connect(&app, 4096);
        tokio::spawn(client(9999, io, vec![T(Act::Get)]));
        idle().await;
        world::with(|w| {
            let ok = w.log[before..].iter().any(|e| matches!(e, Ev::Recv { con: 9999, v } if v["method"]["id"] == 50));
            w.log.truncate(before);
            ok
        })
    })
    .finish(rt)
}

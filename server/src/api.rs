//! The backend under the drivers: two namespaces (one renamed) with every kind of method and stream.
use crate::{mc, world};
use futures::Stream;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::task::{Context, Poll};
use world::Ev;
use zod::{Namespace, TsTypeDef, Zod, ZodType};

/// Serializes unless it is bad
#[derive(Debug)]
pub struct Maybe {
    pub serial: u32,
    pub i: u32,
    pub bad: bool,
}
impl Serialize for Maybe {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.bad {
            return Err(serde::ser::Error::custom("this one does not serialize"));
        }
        (self.serial, self.i).serialize(s)
    }
}
impl ZodType for Maybe {
    fn schema() -> String {
        "z.any()".into()
    }
    fn type_def() -> TsTypeDef {
        TsTypeDef::Type("any".into())
    }
}

#[derive(Zod, Serialize, Deserialize, Debug, Clone, PartialEq)]
#[zod(namespace = "Main")]
pub struct Point {
    pub x: u8,
    #[serde(default)]
    pub y: Option<i8>,
}

#[derive(Zod, Serialize, Deserialize, Debug, Clone, PartialEq)]
#[zod(namespace = "Main")]
pub enum Shape {
    Unit,
    New(u8),
    Pair(u8, String),
    Named { p: Point },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// n items, pending in between
    Count,
    /// n items, always ready
    Burst,
    /// always ready
    Forever,
    Never,
    /// one item each time the gate opens
    Gated(u32),
    /// an item, one that does not serialize, an item
    Bad,
    /// ends without items
    Empty,
}

pub struct Src {
    kind: Kind,
    serial: u32,
    i: u32,
    n: u32,
    waited: bool,
    ended: bool,
}
impl Src {
    fn new(tag: u32, kind: Kind, n: u32) -> Self {
        let serial = world::with(|w| {
            w.serial += 1;
            w.serial
        });
        world::log(Ev::Open { serial, tag, what: format!("{kind:?} {n}") });
        Src { kind, serial, i: 0, n, waited: false, ended: false }
    }
    fn item(&mut self, bad: bool) -> Poll<Option<Maybe>> {
        let i = self.i;
        self.i += 1;
        world::log(Ev::Item { serial: self.serial, i });
        Poll::Ready(Some(Maybe { serial: self.serial, i, bad }))
    }
    fn end(&mut self) -> Poll<Option<Maybe>> {
        if !self.ended {
            self.ended = true;
            world::log(Ev::End { serial: self.serial });
        }
        Poll::Ready(None)
    }
}
impl Drop for Src {
    fn drop(&mut self) {
        world::log(Ev::Drop { serial: self.serial });
    }
}
impl Stream for Src {
    type Item = Maybe;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Maybe>> {
        let this = &mut *self;
        match this.kind {
            Kind::Empty => this.end(),
            Kind::Never => Poll::Pending,
            Kind::Burst | Kind::Bad => {
                if this.i == this.n {
                    return this.end();
                }
                let bad = this.kind == Kind::Bad && this.i == 1;
                this.item(bad)
            }
            // a number of items no test waits for
            Kind::Count if this.n >= 100 => Poll::Pending,
            Kind::Count => {
                if !this.waited {
                    this.waited = true;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                this.waited = false;
                if this.i == this.n {
                    return this.end();
                }
                this.item(false)
            }
            Kind::Forever => {
                // some thousand items without letting anything else run is a stream that blocks the others
                let step = mc::steps();
                let stop = world::with(|w| {
                    if w.burst.0 == this.serial && w.burst.1 == step {
                        w.burst.2 += 1;
                    } else {
                        w.burst = (this.serial, step, 0);
                    }
                    if w.burst.2 > 1000 {
                        w.blocked = true;
                    }
                    w.blocked
                });
                if stop || this.n == 0 {
                    return Poll::Pending;
                }
                if world::with(|w| w.burst.2) == 0 {
                    this.n -= 1;
                }
                this.item(false)
            }
            Kind::Gated(k) => {
                let have = world::with(|w| {
                    w.waiting.entry(k).or_default().push(cx.waker().clone());
                    w.gate_items.get(&k).copied().unwrap_or(0)
                });
                if this.i < have {
                    this.item(false)
                } else {
                    Poll::Pending
                }
            }
        }
    }
}

#[derive(Namespace)]
pub struct Main {
    pub s: i32,
}

impl Drop for Main {
    fn drop(&mut self) {
        world::with(|w| w.released = true);
    }
}

#[derive(Namespace)]
#[namespace(name = "other_ns")]
pub struct Side {
    pub s: i32,
}

fn enter(tag: u32, what: String) {
    world::log(Ev::Enter { tag, what });
}
fn exit(tag: u32, state: i32) {
    world::log(Ev::Exit { tag, state });
}

#[zod::rpc::namespace]
impl Main {
    pub async fn add(&mut self, tag: u32, n: i32) -> i32 {
        enter(tag, format!("add {n}"));
        let s = self.s;
        tokio::task::yield_now().await;
        self.s = s + n;
        exit(tag, self.s);
        self.s
    }
    pub async fn get(&mut self, tag: u32) -> i32 {
        enter(tag, "get".into());
        exit(tag, self.s);
        self.s
    }
    pub async fn slow(&mut self, tag: u32, k: u32) -> i32 {
        enter(tag, format!("slow {k}"));
        let s = self.s;
        world::gate(k).await;
        self.s = s + 1;
        exit(tag, self.s);
        self.s
    }
    pub async fn bad(&mut self, tag: u32) -> Maybe {
        enter(tag, "bad".into());
        exit(tag, self.s);
        Maybe { serial: 0, i: 0, bad: true }
    }
    pub async fn nop(&mut self) {
        enter(0, "nop".into());
        exit(0, self.s);
    }
    pub async fn r#match(&mut self, r#type: u8) -> u8 {
        enter(0, format!("match {}", r#type));
        exit(0, self.s);
        r#type
    }
    pub async fn five(&mut self, tag: u32, a: u8, s: String, o: Option<u8>, v: Vec<(i8, bool)>) -> (u8, String) {
        enter(tag, format!("five {a} {s:?} {o:?} {v:?}"));
        exit(tag, self.s);
        (a, s)
    }
    pub async fn maps(&mut self, tag: u32, m: HashMap<u8, u8>, b: BTreeMap<String, Shape>) -> BTreeMap<u8, u8> {
        let m: BTreeMap<_, _> = m.into_iter().collect();
        enter(tag, format!("maps {m:?} {b:?}"));
        exit(tag, self.s);
        m
    }
    pub async fn shape(&mut self, tag: u32, a: Shape, p: Point) -> Shape {
        enter(tag, format!("shape {a:?} {p:?}"));
        exit(tag, self.s);
        a
    }
    pub fn count(&mut self, tag: u32, n: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Count, n)
    }
    pub fn burst(&mut self, tag: u32, n: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Burst, n)
    }
    pub fn forever(&mut self, tag: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Forever, 6)
    }
    pub fn never(&mut self, tag: u32) -> Pin<Box<dyn Stream<Item = Maybe> + Send>> {
        Box::pin(Src::new(tag, Kind::Never, 0))
    }
    pub fn gated(&mut self, tag: u32, k: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Gated(k), 0)
    }
    pub fn badstream(&mut self, tag: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Bad, 3)
    }
    pub fn empty(&mut self) -> impl Stream<Item = Maybe> {
        Src::new(0, Kind::Empty, 0)
    }
}

#[zod::rpc::namespace]
impl Side {
    pub async fn get(&mut self, tag: u32) -> i32 {
        enter(tag, "side get".into());
        exit(tag, self.s);
        self.s
    }
    pub async fn add(&mut self, tag: u32, n: i32) -> i32 {
        enter(tag, format!("side add {n}"));
        self.s += n;
        exit(tag, self.s);
        self.s
    }
    pub fn count(&mut self, tag: u32, n: u32) -> impl Stream<Item = Maybe> {
        Src::new(tag, Kind::Count, n)
    }
}

#[derive(zod::rpc::Backend)]
pub struct Api(pub Main, pub Side);

pub fn api() -> Api {
    Api(Main { s: 0 }, Side { s: 1000 })
}

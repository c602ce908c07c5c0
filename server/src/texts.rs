//! Request texts, and a reference that says what a text has to do. It shares nothing with serde.
use crate::api::{Point, Shape};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
use J::*;

impl J {
    pub fn text(&self) -> String {
        match self {
            Null => "null".into(),
            Bool(b) => b.to_string(),
            Num(n) => n.clone(),
            Str(s) => quote(s),
            Arr(v) => format!("[{}]", v.iter().map(J::text).collect::<Vec<_>>().join(",")),
            Obj(v) => format!("{{{}}}", v.iter().map(|(k, v)| format!("{}:{}", quote(k), v.text())).collect::<Vec<_>>().join(",")),
        }
    }
}
fn quote(s: &str) -> String {
    let mut o = String::from('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------------------------------------ parser
/// RFC 8259
pub fn parse(s: &str) -> Option<J> {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    let v = value(&c, &mut p, 0)?;
    ws(&c, &mut p);
    (p == c.len()).then_some(v)
}
fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && matches!(c[*p], ' ' | '\t' | '\n' | '\r') {
        *p += 1;
    }
}
fn value(c: &[char], p: &mut usize, depth: usize) -> Option<J> {
    if depth > 200 {
        // nobody has to follow
        return None;
    }
    ws(c, p);
    match c.get(*p)? {
        '{' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p)? == &'}' {
                *p += 1;
                return Some(Obj(v));
            }
            loop {
                ws(c, p);
                let k = string(c, p)?;
                ws(c, p);
                if c.get(*p)? != &':' {
                    return None;
                }
                *p += 1;
                v.push((k, value(c, p, depth + 1)?));
                ws(c, p);
                *p += 1;
                match c.get(*p - 1)? {
                    ',' => {}
                    '}' => return Some(Obj(v)),
                    _ => return None,
                }
            }
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p)? == &']' {
                *p += 1;
                return Some(Arr(v));
            }
            loop {
                v.push(value(c, p, depth + 1)?);
                ws(c, p);
                *p += 1;
                match c.get(*p - 1)? {
                    ',' => {}
                    ']' => return Some(Arr(v)),
                    _ => return None,
                }
            }
        }
        '"' => string(c, p).map(Str),
        _ => {
            let start = *p;
            while *p < c.len() && (c[*p].is_ascii_alphanumeric() || matches!(c[*p], '-' | '+' | '.')) {
                *p += 1;
            }
            let t: String = c[start..*p].iter().collect();
            match &*t {
                "null" => Some(Null),
                "true" => Some(Bool(true)),
                "false" => Some(Bool(false)),
                _ => number(&t).then(|| Num(t)),
            }
        }
    }
}
fn number(t: &str) -> bool {
    let t = t.strip_prefix('-').unwrap_or(t);
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    let (i, f) = match m.find('.') {
        Some(k) => (&m[..k], Some(&m[k + 1..])),
        None => (m, None),
    };
    digits(i) && (i == "0" || !i.starts_with('0')) && f.map_or(true, digits) && e.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
}
fn string(c: &[char], p: &mut usize) -> Option<String> {
    if c.get(*p)? != &'"' {
        return None;
    }
    *p += 1;
    let mut o = String::new();
    loop {
        let x = *c.get(*p)?;
        *p += 1;
        match x {
            '"' => return Some(o),
            '\\' => {
                let e = *c.get(*p)?;
                *p += 1;
                let hex = |p: &mut usize| -> Option<u32> {
                    let h: String = c.get(*p..*p + 4)?.iter().collect();
                    *p += 4;
                    h.chars().all(|c| c.is_ascii_hexdigit()).then(|| u32::from_str_radix(&h, 16).unwrap())
                };
                o.push(match e {
                    '"' | '\\' | '/' => e,
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    'u' => {
                        let h = hex(p)?;
                        if (0xd800..0xdc00).contains(&h) {
                            if c.get(*p)? != &'\\' || c.get(*p + 1)? != &'u' {
                                return None;
                            }
                            *p += 2;
                            let l = hex(p)?;
                            if !(0xdc00..0xe000).contains(&l) {
                                return None;
                            }
                            char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))?
                        } else {
                            char::from_u32(h)?
                        }
                    }
                    _ => return None,
                });
            }
            c if (c as u32) < 32 => return None,
            c => o.push(c),
        }
    }
}

// ------------------------------------------------------------------------------------------------ reference
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// method: what is logged, the result
    Call { id: u64, what: String, data: String },
    /// stream: number of items
    Open { id: u64, n: u32 },
    Cancel { id: u64 },
}
/// What a text may do: one of `acts`, or fail with one of the ids.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Verdict {
    pub act: Option<Act>,
    pub errors: Vec<Option<u64>>,
}

/// None: no such number; Err: not an integer as JavaScript would write it (1.0, 1e0, -0), either way is fine
fn int(v: &J, min: i128, max: i128) -> Result<Option<i128>, ()> {
    match v {
        Num(t) if t.contains(['.', 'e', 'E']) || t == "-0" => Err(()),
        Num(t) => Ok(t.parse::<i128>().ok().filter(|n| (min..=max).contains(n))),
        _ => Ok(None),
    }
}

struct Args {
    loose: bool,
}
impl Args {
    fn int(&mut self, v: &J, min: i128, max: i128) -> Option<i128> {
        match int(v, min, max) {
            Ok(n) => n,
            Err(()) => {
                self.loose = true;
                None
            }
        }
    }
    fn u8(&mut self, v: &J) -> Option<u8> {
        self.int(v, 0, 255).map(|n| n as u8)
    }
    fn i8(&mut self, v: &J) -> Option<i8> {
        self.int(v, -128, 127).map(|n| n as i8)
    }
    fn u32(&mut self, v: &J) -> Option<u32> {
        self.int(v, 0, u32::MAX as i128).map(|n| n as u32)
    }
    fn i32(&mut self, v: &J) -> Option<i32> {
        self.int(v, i32::MIN as i128, i32::MAX as i128).map(|n| n as i32)
    }
    fn str(&mut self, v: &J) -> Option<String> {
        match v {
            Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn fields<'a>(&mut self, v: &'a J, names: &[&str]) -> Option<BTreeMap<&'a str, &'a J>> {
        let v = match v {
            Obj(v) => v,
            // serde reads structs from arrays as well
            Arr(_) => {
                self.loose = true;
                return None;
            }
            _ => return None,
        };
        let mut o = BTreeMap::new();
        for (k, v) in v {
            if o.insert(&k[..], v).is_some() || !names.contains(&&k[..]) {
                self.loose = true;
            }
        }
        Some(o)
    }
    fn point(&mut self, v: &J) -> Option<Point> {
        let f = self.fields(v, &["x", "y"])?;
        let x = self.u8(f.get("x")?)?;
        let y = match f.get("y") {
            None | Some(Null) => None,
            Some(v) => Some(self.i8(v)?),
        };
        Some(Point { x, y })
    }
    fn shape(&mut self, v: &J) -> Option<Shape> {
        match v {
            Str(s) => (s == "Unit").then_some(Shape::Unit),
            Obj(o) => {
                if o.len() != 1 {
                    self.loose |= !o.is_empty();
                    return None;
                }
                let (k, v) = &o[0];
                match &k[..] {
                    "Unit" => {
                        self.loose = true;
                        None
                    }
                    "New" => Some(Shape::New(self.u8(v)?)),
                    "Pair" => match v {
                        Arr(a) if a.len() == 2 => Some(Shape::Pair(self.u8(&a[0])?, self.str(&a[1])?)),
                        _ => None,
                    },
                    "Named" => {
                        let f = self.fields(v, &["p"])?;
                        Some(Shape::Named { p: self.point(f.get("p")?)? })
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn map<K: Ord, V>(&mut self, v: &J, key: impl Fn(&mut Self, &str) -> Option<K>, val: impl Fn(&mut Self, &J) -> Option<V>) -> Option<BTreeMap<K, V>> {
        let Obj(o) = v else { return None };
        let mut m = BTreeMap::new();
        for (k, v) in o {
            if m.insert(key(self, k)?, val(self, v)?).is_some() {
                self.loose = true;
            }
        }
        Some(m)
    }
}

pub fn shape_json(s: &Shape) -> String {
    match s {
        Shape::Unit => "\"Unit\"".into(),
        Shape::New(n) => format!("{{\"New\":{n}}}"),
        Shape::Pair(n, s) => format!("{{\"Pair\":[{n},{}]}}", quote(s)),
        Shape::Named { p } => format!("{{\"Named\":{{\"p\":{{\"x\":{},\"y\":{}}}}}}}", p.x, p.y.map_or("null".into(), |y| y.to_string())),
    }
}

/// None: no such method, or other arguments than it declares
fn call(id: u64, ns: &str, m: &str, a: &[J], c: &mut Args) -> Option<Act> {
    let ret = |what: String, data: String| Some(Act::Call { id, what, data });
    match (ns, m, a) {
        ("Main", "add", [t, n]) => {
            c.u32(t)?;
            let n = c.i32(n)?;
            ret(format!("add {n}"), n.to_string())
        }
        ("Main", "get", [t]) => {
            c.u32(t)?;
            ret("get".into(), "0".into())
        }
        ("Main", "nop", []) => ret("nop".into(), "null".into()),
        ("Main", "match", [t]) => {
            let t = c.u8(t)?;
            ret(format!("match {t}"), t.to_string())
        }
        ("Main", "five", [t, a, s, o, v]) => {
            c.u32(t)?;
            let a = c.u8(a)?;
            let s = c.str(s)?;
            let o = match o {
                Null => None,
                o => Some(c.u8(o)?),
            };
            let Arr(v) = v else { return None };
            let mut w = vec![];
            for x in v {
                match x {
                    Arr(p) if p.len() == 2 => w.push((c.i8(&p[0])?, match p[1] {
                        Bool(b) => b,
                        _ => return None,
                    })),
                    _ => return None,
                }
            }
            ret(format!("five {a} {s:?} {o:?} {w:?}"), format!("[{a},{}]", quote(&s)))
        }
        ("Main", "maps", [t, m, b]) => {
            c.u32(t)?;
            let m = c.map(
                m,
                |c, k| {
                    let n = k.parse::<i128>().ok().filter(|n| (0..=255).contains(n));
                    // "01" and "+1" are numbers to Rust
                    if n.is_some_and(|n| n.to_string() != k) {
                        c.loose = true;
                    }
                    n.map(|n| n as u8)
                },
                Args::u8,
            )?;
            let b = c.map(b, |_, k| Some(k.to_string()), Args::shape)?;
            let data = Obj(m.iter().map(|(k, v)| (k.to_string(), Num(v.to_string()))).collect()).text();
            ret(format!("maps {m:?} {b:?}"), data)
        }
        ("Main", "shape", [t, a, p]) => {
            c.u32(t)?;
            let a = c.shape(a)?;
            let p = c.point(p)?;
            ret(format!("shape {a:?} {p:?}"), shape_json(&a))
        }
        ("other_ns", "get", [t]) => {
            c.u32(t)?;
            ret("side get".into(), "1000".into())
        }
        ("other_ns", "add", [t, n]) => {
            c.u32(t)?;
            let n = c.i32(n)?;
            ret(format!("side add {n}"), (1000 + n as i64).to_string())
        }
        ("Main" | "other_ns", "count", [t, n]) => {
            c.u32(t)?;
            Some(Act::Open { id, n: c.u32(n)? })
        }
        _ => None,
    }
}

pub fn reference(text: &str) -> Verdict {
    let nothing = || Verdict { act: None, errors: vec![None] };
    let Some(j) = parse(text) else { return nothing() };
    let Obj(root) = &j else { return nothing() };
    let named: Vec<_> = root.iter().filter(|(k, _)| k == "exec" || k == "cancelStream").collect();
    if named.is_empty() {
        return nothing();
    }
    let mut v = inner(&named[0].0, &named[0].1);
    if root.len() > 1 {
        // more members than a request has: whoever ignores them is right, and whoever refuses them as well
        for n in &named {
            let w = inner(&n.0, &n.1);
            v.errors.extend(w.errors);
            if let Some(a) = w.act {
                v.errors.push(Some(match a {
                    Act::Call { id, .. } | Act::Open { id, .. } | Act::Cancel { id } => id,
                }));
            }
        }
        v.errors.push(None);
    }
    // too large for a double: JSON without a meaning
    if has_huge(&j) {
        v.errors.push(None);
    }
    v
}
fn has_dup(j: &J) -> bool {
    match j {
        Arr(v) => v.iter().any(has_dup),
        Obj(v) => v.iter().enumerate().any(|(i, (k, x))| v[..i].iter().any(|(l, _)| l == k) || has_dup(x)),
        _ => false,
    }
}
fn has_huge(j: &J) -> bool {
    match j {
        Num(t) => t.parse::<f64>().is_ok_and(|f| f.is_infinite()),
        Arr(v) => v.iter().any(has_huge),
        Obj(v) => v.iter().any(|(_, v)| has_huge(v)),
        _ => false,
    }
}
fn inner(kind: &str, v: &J) -> Verdict {
    let none = Verdict { act: None, errors: vec![None] };
    let m = match v {
        Obj(m) => m,
        // serde reads structs from arrays as well
        Arr(a) if kind == "cancelStream" && a.len() == 1 => {
            return match int(&a[0], 0, u64::MAX as i128) {
                Ok(Some(id)) => Verdict { act: Some(Act::Cancel { id: id as u64 }), errors: vec![None, Some(id as u64)] },
                _ => none,
            };
        }
        _ => return none,
    };
    let ids: Vec<&J> = m.iter().filter(|(k, _)| k == "id").map(|(_, v)| v).collect();
    let mut out = Verdict::default();
    let mut id = None;
    for i in &ids {
        match int(i, 0, u64::MAX as i128) {
            Ok(Some(n)) => {
                id = id.or(Some(n as u64));
                out.errors.push(Some(n as u64));
            }
            Ok(None) => out.errors.push(None),
            Err(()) => {
                out.errors.push(None);
                let Num(t) = i else { unreachable!() };
                if let Ok(f) = t.parse::<f64>() {
                    out.errors.push(Some(f as u64));
                    id = id.or(Some(f as u64));
                }
            }
        }
    }
    if ids.len() > 1 {
        out.errors.push(None);
    }
    let Some(id) = id else { return none };
    if kind == "cancelStream" {
        let exact = m.len() == 1 && out.errors == [Some(id)];
        out.act = Some(Act::Cancel { id });
        if exact {
            out.errors.clear();
        } else {
            out.errors.push(None);
        }
        return out;
    }
    let get = |n: &str| m.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v);
    let names = ["id", "namespace", "method", "args"];
    let mut loose = out.errors != [Some(id)] || m.len() > 4 || m.iter().any(|(k, _)| !names.contains(&&k[..]));
    let mut dup = false;
    for n in names {
        dup |= m.iter().filter(|(k, _)| k == n).count() > 1;
    }
    if dup {
        out.errors.push(None);
        loose = true;
    }
    if let (Some(Str(ns)), Some(Str(me)), Some(Arr(args))) = (get("namespace"), get("method"), get("args")) {
        let mut c = Args { loose: args.iter().any(has_dup) };
        let a = call(id, ns, me, args, &mut c);
        if c.loose {
            // anything goes, as long as it is one thing
            out.errors.push(Some(id));
            let _ = a;
            out.act = Some(Act::Call { id, what: "*".into(), data: "*".into() });
            return out;
        }
        if let Some(a) = a {
            out.act = Some(a);
            if !loose {
                out.errors.clear();
            }
            return out;
        }
    }
    if dup {
        // which of the two counts?
        out.act = Some(Act::Call { id, what: "*".into(), data: "*".into() });
    }
    out
}

// ------------------------------------------------------------------------------------------------ generator
fn s(x: &str) -> J {
    Str(x.into())
}
fn n(x: i64) -> J {
    Num(x.to_string())
}
fn o<const N: usize>(v: [(&str, J); N]) -> J {
    Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn exec(id: i64, ns: &str, m: &str, args: Vec<J>) -> J {
    o([("exec", o([("id", n(id)), ("namespace", s(ns)), ("method", s(m)), ("args", Arr(args))]))])
}

pub fn bases() -> Vec<J> {
    let p = |x, y| o([("x", n(x)), ("y", y)]);
    vec![
        exec(0, "Main", "get", vec![n(5)]),
        exec(7, "Main", "add", vec![n(5), n(-3)]),
        exec(2, "Main", "nop", vec![]),
        exec(3, "Main", "match", vec![n(255)]),
        exec(4, "Main", "five", vec![n(5), n(9), s("é\n\""), Null, Arr(vec![Arr(vec![n(-1), Bool(true)]), Arr(vec![n(2), Bool(false)])])]),
        exec(5, "Main", "five", vec![n(5), n(0), s(""), n(3), Arr(vec![])]),
        exec(6, "Main", "maps", vec![n(5), o([("0", n(1)), ("255", n(2))]), o([("k", s("Unit")), ("", o([("Named", o([("p", p(1, Null))]))]))])]),
        exec(8, "Main", "shape", vec![n(5), o([("Pair", Arr(vec![n(1), s("x")]))]), o([("x", n(200))])]),
        exec(9, "Main", "shape", vec![n(5), o([("New", n(1))]), p(0, n(-128))]),
        exec(1, "Main", "count", vec![n(5), n(2)]),
        exec(10, "other_ns", "get", vec![n(5)]),
        exec(11, "other_ns", "add", vec![n(5), n(1)]),
        exec(12, "other_ns", "count", vec![n(5), n(1)]),
        o([("cancelStream", o([("id", n(1))]))]),
        o([("cancelStream", o([("id", n(33))]))]),
    ]
}

fn replacements() -> Vec<J> {
    let num = |x: &str| Num(x.into());
    vec![
        Null, Bool(true), s(""), s("Unit"), s("1"), s("get"), s("Main"), s("other_ns"), s("add"), s("main"), s("nope"), s("count"), n(0), n(1), n(-1), n(-129), n(255), n(256),
        num("2147483648"), num("4294967296"), num("9007199254740993"), num("18446744073709551615"), num("18446744073709551616"), num("1.0"), num("1.5"), num("-0"), num("1e0"), num("1e400"),
        Arr(vec![]), Arr(vec![n(1)]), Arr(vec![n(5), n(1)]), Obj(vec![]), o([("id", n(1))]), o([("x", n(1))]),
    ]
}
const KEYS: &[&str] = &["exec", "cancelStream", "Exec", "id", "Id", "namespace", "method", "args", "x", "y", "0", "256", "01", "", "New", "Unit"];

/// every tree one edit away
pub fn edits(j: &J) -> Vec<J> {
    let mut out: Vec<J> = replacements().into_iter().filter(|r| r != j).collect();
    match j {
        Arr(v) => {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(Arr(w));
                if i + 1 < v.len() {
                    let mut w = v.clone();
                    w.swap(i, i + 1);
                    out.push(Arr(w));
                }
                for e in edits(&v[i]) {
                    let mut w = v.clone();
                    w[i] = e;
                    out.push(Arr(w));
                }
            }
            for i in [0, v.len()] {
                for e in [Null, n(1), Arr(vec![])] {
                    let mut w = v.clone();
                    w.insert(i, e);
                    out.push(Arr(w));
                }
            }
        }
        Obj(v) => {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(Obj(w));
                for k in KEYS {
                    if *k != v[i].0 {
                        let mut w = v.clone();
                        w[i].0 = k.to_string();
                        out.push(Obj(w));
                    }
                }
                for e in edits(&v[i].1) {
                    let mut w = v.clone();
                    w[i].1 = e;
                    out.push(Obj(w));
                }
                // the same member again, and with another value
                for e in [v[i].1.clone(), Null, n(2)] {
                    let mut w = v.clone();
                    w.push((v[i].0.clone(), e));
                    out.push(Obj(w));
                }
            }
            for k in KEYS {
                if !v.iter().any(|(l, _)| l == k) {
                    let mut w = v.clone();
                    w.push((k.to_string(), n(1)));
                    out.push(Obj(w));
                }
            }
            for p in permutations(v.len()).into_iter().skip(1) {
                out.push(Obj(p.iter().map(|i| v[*i].clone()).collect()));
            }
        }
        _ => {}
    }
    out
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in (0..=p.len()).rev() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn texts(thorough: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let bases = bases();
    for b in &bases {
        out.push(b.text());
        let one = edits(b);
        out.extend(one.iter().map(J::text));
        if thorough {
            for e in &one {
                out.extend(edits(e).iter().map(J::text));
            }
        }
        // the text itself
        let t: Vec<char> = b.text().chars().collect();
        let mut chars: Vec<&str> = vec!["", "\"", "{", "}", ",", " ", "0"];
        if thorough {
            chars.extend(["[", "]", ":", "\\", "-", ".", "e", "\n", "\u{0}", "\u{feff}", "\u{a0}", "x", "é", "/*", "\\u0041", "\\ud800"]);
        }
        for i in 0..=t.len() {
            let (a, z): (String, String) = (t[..i].iter().collect(), t[i..].iter().collect());
            out.push(a.clone());
            for c in &chars {
                out.push(format!("{a}{c}{z}"));
                if i < t.len() {
                    out.push(format!("{a}{c}{}", t[i + 1..].iter().collect::<String>()));
                }
            }
        }
        let t = b.text();
        for (a, z) in [(" \n\t\r", " \n\t\r"), ("\u{feff}", ""), ("", "x"), ("", ","), ("[", "]"), ("\"", "\""), ("//\n", ""), ("", "\u{0}")] {
            out.push(format!("{a}{t}{z}"));
        }
        out.push(t.replace('"', "'"));
        out.push(t.replace(':', " : ").replace(',', " ,\n"));
        out.push(format!("{t}{t}"));
        out.push(format!("{t}\n{t}"));
    }
    for deep in [100, 127, 128, 129, 1000, 20000] {
        out.push("[".repeat(deep));
        out.push(format!("{}{}", "[".repeat(deep), "]".repeat(deep)));
        out.push("{\"exec\":".repeat(deep));
        out.push(format!("{}1{}", "{\"exec\":".repeat(deep), "}".repeat(deep)));
    }
    for t in ["", " ", "null", "true", "0", "-", "NaN", "Infinity", "undefined", "exec", "\"exec\"", "\"cancelStream\"", "[\"exec\"]", "[\"exec\",{\"id\":1}]", "{\"exec\":null}", "{\"error\":{\"id\":1}}"] {
        out.push(t.to_string());
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|t| seen.insert(t.clone()));
    out
}

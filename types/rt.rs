// Run-time side of the types engine: dumps what the library generates for each type and lets serde judge wires.
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use std::io::{BufRead, Write};
use zod::ZodType;

pub fn d_u8() -> u8 {
    42
}
pub fn d_string() -> String {
    "dflt".into()
}

pub struct Ops {
    pub dump: fn() -> serde_json::Value,
    pub eval: fn(&str) -> Result<(String, Option<String>, bool), String>,
}

pub trait Sorted {}

fn dump<T: ZodType>() -> serde_json::Value {
    let td = T::type_def();
    let kind = match &td {
        zod::TsTypeDef::Interface(_) => "interface",
        zod::TsTypeDef::Type(_) => "type",
    };
    serde_json::json!({
        "kind": kind,
        "type_def": td.to_string(),
        "schema": T::schema(),
        "inline": T::inline().to_string(),
        "inline_schema": T::inline_schema(),
        "docs": T::docs(),
    })
}

// (debug text, what the server sends for the value, whether that text comes back as the same value)
fn eval<T: DeserializeOwned + Serialize + Debug>(s: &str) -> Result<(String, Option<String>, bool), String> {
    let v: T = serde_json::from_str(s).map_err(|e| e.to_string())?;
    let d = format!("{v:?}");
    let js = serde_json::to_string(&v).ok();
    let back = match &js {
        Some(js) => serde_json::from_str::<T>(js).map(|b| format!("{b:?}") == d).unwrap_or(false),
        None => false,
    };
    Ok((d, js, back))
}

pub fn ops<T: ZodType + DeserializeOwned + Serialize + Debug>() -> Ops {
    Ops { dump: dump::<T>, eval: eval::<T> }
}

pub fn run(t: Vec<(&str, Ops)>) {
    let args: Vec<String> = std::env::args().collect();
    let out = std::io::stdout();
    match args[1].as_str() {
        // one line per type, flushed: a crash (stack overflow) tells which type caused it
        "dump" => {
            let from: usize = args[2].parse().unwrap();
            for (i, (name, o)) in t.iter().enumerate().skip(from) {
                let mut v = std::panic::catch_unwind(|| (o.dump)()).unwrap_or_else(|_| serde_json::json!({"panic": true}));
                v["i"] = i.into();
                v["name"] = (*name).into();
                let mut out = out.lock();
                writeln!(out, "{v}").unwrap();
                out.flush().unwrap();
            }
        }
        // lines "<index>\t<json>" in, one result line each out
        "eval" => {
            let mut out = std::io::BufWriter::new(out.lock());
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let (i, js) = l.split_once('\t').unwrap();
                let o = &t[i.parse::<usize>().unwrap()].1;
                let r = match std::panic::catch_unwind(|| (o.eval)(js)) {
                    Ok(Ok((d, js, back))) => serde_json::json!([d, js, back]),
                    Ok(Err(e)) => serde_json::json!([e]),
                    Err(_) => serde_json::json!(["panic"]),
                };
                writeln!(out, "{r}").unwrap();
            }
        }
        "client" => print!("{}", <zod::rpc::clients::WebsocketClient as zod::__private::codegen::ClientCodegen>::get()),
        _ => panic!("mode"),
    }
}

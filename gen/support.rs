//! What the drivers of generated code share. A driver runs the code generated
//! for a schema on values and bytes given as JSON and logs what it did; TLC judges.
#![allow(dead_code, unused_macros)]
pub use serde_json::{json, Value};
use std::io::{BufRead, Write};

pub trait Sc: Sized {
    fn of(v: &Value) -> Self;
    fn to(self) -> Value;
}
macro_rules! sc {
    ($($t:ty, $n:expr);*) => {$(
        impl Sc for $t {
            fn of(v: &Value) -> Self {
                let b = bytes(v);
                let mut a = [0u8; $n];
                a.copy_from_slice(&b);
                <$t>::from_le_bytes(a)
            }
            fn to(self) -> Value {
                json!(self.to_le_bytes().to_vec())
            }
        }
    )*};
}
sc!(u8, 1; i8, 1; u16, 2; i16, 2; u32, 4; i32, 4; u64, 8; i64, 8);
impl Sc for bool {
    fn of(v: &Value) -> Self {
        bytes(v)[0] != 0
    }
    fn to(self) -> Value {
        json!([self as u8])
    }
}
impl Sc for f32 {
    fn of(v: &Value) -> Self {
        f32::from_bits(u32::of(v))
    }
    fn to(self) -> Value {
        self.to_bits().to()
    }
}
impl Sc for f64 {
    fn of(v: &Value) -> Self {
        f64::from_bits(u64::of(v))
    }
    fn to(self) -> Value {
        self.to_bits().to()
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
/// A field of a table's value, if it is given.
pub fn given<'a>(v: &'a Value, id: &str) -> Option<&'a Value> {
    arr(&v["f"]).iter().find(|x| x["id"].as_str() == Some(id)).map(|x| &x["v"])
}
pub fn s(x: &str) -> Value {
    json!(x.as_bytes().to_vec())
}
pub fn cv(v: Value) -> Value {
    json!({"r": "v", "v": v})
}
pub fn ce() -> Value {
    json!({"r": "e", "v": []})
}
pub fn opt<T, F: FnOnce(T) -> Value>(x: Result<Option<T>, butte::Error>, f: F) -> Value {
    match x {
        Ok(Some(x)) => cv(f(x)),
        Ok(None) => json!({"r": "n", "v": []}),
        Err(_) => ce(),
    }
}
pub fn req<T, F: FnOnce(T) -> Value>(x: Result<T, butte::Error>, f: F) -> Value {
    match x {
        Ok(x) => cv(f(x)),
        Err(_) => ce(),
    }
}
pub fn ent(id: &str, c: Value) -> Value {
    json!({"id": id, "r": c["r"], "v": c["v"]})
}
pub fn ent2(id: &str, t: Value, c: Value) -> Value {
    json!({"id": id, "r": c["r"], "v": c["v"], "tr": t["r"], "tv": t["v"]})
}
#[macro_export]
macro_rules! dvec {
    ($v:expr, $x:ident => $e:expr) => {{
        let v = $v;
        match v.len() {
            Err(_) => json!({"n": -1, "e": []}),
            Ok(n) => {
                let mut es = vec![];
                for i in 0..n.min(8) {
                    es.push(match v.get(i) {
                        Ok($x) => cv($e),
                        Err(_) => ce(),
                    });
                }
                json!({"n": n.min(16777216), "e": es})
            }
        }
    }};
}

/// Bytes at an address aligned to 8 that has nothing behind them.
pub fn placed<F: FnOnce(&[u8]) -> Value>(b: &[u8], f: F) -> Value {
    let mut v: Vec<u64> = vec![0; (b.len() + 7) / 8 + 1];
    let p = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, b.len()) };
    p.copy_from_slice(b);
    f(p)
}

pub fn run(ops: fn(&Value) -> Value) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: driver go IN OUT [START]");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {})); // panics are data
    let start: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let input = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).unwrap();
    for (i, line) in input.lines().enumerate() {
        if i < start {
            continue;
        }
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops(&v))).unwrap_or_else(|_| json!({"r": "panic"}));
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}

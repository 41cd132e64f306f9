//! Runs call sequences on FlatBufferBuilder.
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

#[macro_export]
macro_rules! with_scalar {
    ($t:expr, $T:ident, $body:block) => {
        match $t {
            "bool" => { type $T = bool; $body }
            "u8" => { type $T = u8; $body }
            "i8" => { type $T = i8; $body }
            "u16" => { type $T = u16; $body }
            "i16" => { type $T = i16; $body }
            "u32" => { type $T = u32; $body }
            "i32" => { type $T = i32; $body }
            "u64" => { type $T = u64; $body }
            "i64" => { type $T = i64; $body }
            "f32" => { type $T = f32; $body }
            "f64" => { type $T = f64; $body }
            x => panic!("scalar type {}", x),
        }
    };
}
#[macro_export]
macro_rules! with_slice_scalar {
    ($t:expr, $T:ident, $body:block) => {
        match $t {
            "u8" => { type $T = u8; $body }
            "i8" => { type $T = i8; $body }
            "u16" => { type $T = u16; $body }
            "i16" => { type $T = i16; $body }
            "u32" => { type $T = u32; $body }
            "i32" => { type $T = i32; $body }
            "u64" => { type $T = u64; $body }
            "i64" => { type $T = i64; $body }
            "f32" => { type $T = f32; $body }
            "f64" => { type $T = f64; $body }
            x => panic!("slice scalar type {}", x),
        }
    };
}
#[macro_export]
macro_rules! with_slice_scalar_u {
    ($t:expr, $T:ident, $body:block) => {
        match $t {
            "u8" => { type $T = u8; $body }
            "u16" => { type $T = u16; $body }
            "u32" => { type $T = u32; $body }
            "u64" => { type $T = u64; $body }
            x => panic!("unsigned type {}", x),
        }
    };
}

/// Our own encoding of scalars, independent of the code under test.
pub trait Le: Copy {
    fn le(self) -> Vec<u8>;
    fn of(b: &[u8]) -> Self;
}
macro_rules! le {
    ($($t:ident),*) => {$(
        impl Le for $t {
            fn le(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
            fn of(b: &[u8]) -> Self {
                let mut a = [0u8; std::mem::size_of::<$t>()];
                a.copy_from_slice(b);
                $t::from_le_bytes(a)
            }
        }
    )*};
}
le!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Le for f32 {
    fn le(self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
    fn of(b: &[u8]) -> Self { f32::from_bits(u32::of(b)) }
}
impl Le for f64 {
    fn le(self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
    fn of(b: &[u8]) -> Self { f64::from_bits(u64::of(b)) }
}
impl Le for bool {
    fn le(self) -> Vec<u8> { vec![self as u8] }
    fn of(b: &[u8]) -> Self { b[0] != 0 }
}

#[derive(Clone, Debug)]
pub enum Fld {
    /// type and the default to read with
    Scalar(String, Vec<u8>),
    Off(usize),
}
#[derive(Clone, Debug)]
pub enum Obj {
    Str,
    BStr,
    Vec(String),
    /// vector of references
    Refs(Vec<usize>),
    Strs,
    Tab(Vec<(u16, Fld)>),
}

struct Exec {
    b: FlatBufferBuilder<'static>,
    h: Vec<(u32, Obj)>,
    start: Option<WIPOffset<TableUnfinishedWIPOffset>>,
    tab: Vec<(u16, Fld)>,
    refs: Vec<usize>,
    root: Option<usize>,
}

fn off(v: u32) -> WIPOffset<UnionWIPOffset> {
    WIPOffset::new(v)
}

impl Exec {
    fn step(&mut self, op: &Value) -> Option<u32> {
        let name = op["op"].as_str().unwrap();
        let t = op["t"].as_str().unwrap_or("");
        let elems = |v: &Value| -> Vec<Vec<u8>> { v.as_array().unwrap().iter().map(bytes).collect() };
        match name {
            "cstr" => {
                let s = String::from_utf8(bytes(&op["s"])).unwrap();
                let o = self.b.create_string(&s).value();
                self.h.push((o, Obj::Str));
                Some(o)
            }
            "cbstr" => {
                let o = self.b.create_byte_string(&bytes(&op["s"])).value();
                self.h.push((o, Obj::BStr));
                Some(o)
            }
            "cvec" => {
                let e = elems(&op["e"]);
                let o = with_scalar!(t, T, {
                    let xs: Vec<T> = e.iter().map(|x| T::of(x)).collect();
                    self.b.create_vector(&xs).value()
                });
                self.h.push((o, Obj::Vec(t.to_string())));
                Some(o)
            }
            "cvecd" => {
                let e = elems(&op["e"]);
                let o = with_slice_scalar!(t, T, {
                    let xs: Vec<T> = e.iter().map(|x| T::of(x)).collect();
                    self.b.create_vector_direct(&xs).value()
                });
                self.h.push((o, Obj::Vec(t.to_string())));
                Some(o)
            }
            "cvecs" => {
                let e: Vec<String> = elems(&op["ss"])
                    .into_iter()
                    .map(|x| String::from_utf8(x).unwrap())
                    .collect();
                // one text, of which the strings are parts where they can be
                let mut long: Vec<&String> = e.iter().collect();
                long.sort_by_key(|s| std::cmp::Reverse(s.len()));
                let mut arena = String::new();
                for s in long {
                    if !arena.contains(s.as_str()) {
                        arena.push_str(s);
                    }
                }
                let r: Vec<&str> = e.iter().map(|s| arena.find(s.as_str()).map(|i| &arena[i..i + s.len()]).unwrap()).collect();
                let o = self.b.create_vector_of_strings(&r).value();
                self.h.push((o, Obj::Strs));
                Some(o)
            }
            "cvech" => {
                let ids: Vec<usize> = op["hs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let xs: Vec<_> = ids.iter().map(|&i| off(self.h[i - 1].0)).collect();
                let o = self.b.create_vector(&xs).value();
                self.h.push((o, Obj::Refs(ids)));
                Some(o)
            }
            "svec" => {
                let n = op["n"].as_u64().unwrap() as usize;
                self.refs.clear();
                if t == "off" {
                    self.b.start_vector::<WIPOffset<UnionWIPOffset>>(n);
                } else {
                    with_scalar!(t, T, { self.b.start_vector::<T>(n) });
                }
                None
            }
            "push" => {
                let o = with_scalar!(t, T, { self.b.push(T::of(&bytes(&op["v"]))).value() });
                Some(o)
            }
            "pushh" => {
                let i = op["h"].as_u64().unwrap() as usize;
                self.refs.push(i);
                Some(self.b.push(off(self.h[i - 1].0)).value())
            }
            "evec" => {
                let n = op["n"].as_u64().unwrap() as usize;
                let o = if t == "off" {
                    self.b.end_vector::<WIPOffset<UnionWIPOffset>>(n).value()
                } else {
                    with_scalar!(t, T, { self.b.end_vector::<T>(n).value() })
                };
                if t == "off" {
                    let mut r = self.refs.clone();
                    r.reverse();
                    self.h.push((o, Obj::Refs(r)));
                } else {
                    self.h.push((o, Obj::Vec(t.to_string())));
                }
                Some(o)
            }
            "stab" => {
                self.tab.clear();
                let s = self.b.start_table();
                self.start = Some(s);
                Some(s.value())
            }
            "slot" => {
                let s = op["s"].as_u64().unwrap() as u16;
                let (v, d) = (bytes(&op["v"]), bytes(&op["d"]));
                with_scalar!(t, T, { self.b.push_slot::<T>(s, T::of(&v), T::of(&d)) });
                let f = Fld::Scalar(t.into(), d);
                self.tab.push((s, f));
                None
            }
            "slota" => {
                let s = op["s"].as_u64().unwrap() as u16;
                let v = bytes(&op["v"]);
                with_scalar!(t, T, { self.b.push_slot_always::<T>(s, T::of(&v)) });
                // a default that differs from the value in every bit
                let d = v.iter().map(|x| if t == "bool" { 1 - x } else { !x }).collect();
                self.tab.push((s, Fld::Scalar(t.into(), d)));
                None
            }
            "sloth" => {
                let s = op["s"].as_u64().unwrap() as u16;
                let i = op["h"].as_u64().unwrap() as usize;
                let o = off(self.h[i - 1].0);
                self.b.push_slot_always(s, o);
                self.tab.push((s, Fld::Off(i)));
                None
            }
            "etab" => {
                let s = self.start.unwrap_or_else(|| WIPOffset::new(0));
                let o = self.b.end_table(s).value();
                let f = self.tab.clone();
                self.h.push((o, Obj::Tab(f)));
                Some(o)
            }
            "req" => {
                let i = op["h"].as_u64().unwrap() as usize;
                let s = op["s"].as_u64().unwrap() as u16;
                self.b.required(WIPOffset::new(self.h[i - 1].0), s, "field");
                None
            }
            "fin" => {
                let i = op["h"].as_u64().unwrap() as usize;
                let o = off(self.h[i - 1].0);
                let id = bytes(&op["id"]);
                let id = String::from_utf8(id).unwrap();
                let ido = if id.is_empty() { None } else { Some(id.as_str()) };
                match op["kind"].as_str().unwrap() {
                    "plain" => self.b.finish(o, ido),
                    "sized" => self.b.finish_size_prefixed(o, ido),
                    "min" => self.b.finish_minimal(o),
                    k => panic!("kind {}", k),
                }
                self.root = Some(i);
                None
            }
            "reset" => {
                self.b.reset();
                self.h.clear();
                self.start = None;
                self.root = None;
                None
            }
            "data" => {
                // look at the finished data
                let n = self.b.finished_data().len();
                Some(n as u32)
            }
            x => panic!("op {}", x),
        }
    }
}

fn known(op: &str) -> bool {
    [
        "cstr", "cbstr", "cvec", "cvecd", "cvecs", "cvech", "svec", "push", "pushh", "evec", "stab",
        "slot", "slota", "sloth", "etab", "req", "fin", "reset", "data",
    ]
    .contains(&op)
}

struct Outcome {
    obs: Vec<Value>,
    bytes: Vec<u8>,
    finished: bool,
    ex: Exec,
}

/// A builder with a past: `how` says what happened to it before.
fn builder(how: &Value) -> FlatBufferBuilder<'static> {
    let cap = how["cap"].as_u64().unwrap() as usize;
    let mut b = FlatBufferBuilder::new_with_capacity(cap);
    match how["past"].as_str().unwrap() {
        "fresh" => {}
        "default" => b = FlatBufferBuilder::default(),
        "new" => b = FlatBufferBuilder::new(),
        "used" => {
            // a finished buffer full of nonzero bytes, then reset
            let s = b.create_byte_string(&[0xAAu8; 61]);
            let v = b.create_vector(&[u64::max_value(); 3]);
            let t = b.start_table();
            b.push_slot_always(4, 0xEEu8);
            b.push_slot_always(6, s);
            b.push_slot_always(8, v);
            b.push_slot_always(14, 0x7777_7777_7777_7777u64);
            let t = b.end_table(t);
            b.finish_size_prefixed(t, Some("PAST"));
            b.reset();
        }
        "aborted" => {
            // a table under construction was abandoned
            let s = b.create_string("abandoned");
            let _ = b.start_table();
            b.push_slot_always(6, 0x1234_5678u32);
            b.push_slot_always(10, s);
            b.reset();
        }
        "abvec" => {
            b.start_vector::<u64>(3);
            b.push(!0u64);
            b.reset();
            b.reset();
        }
        "tables" => {
            // many vtables known before the reset
            for k in 0..5u16 {
                let t = b.start_table();
                for j in 0..=k {
                    b.push_slot_always(4 + 2 * j, 0xFFFFu16);
                }
                b.end_table(t);
            }
            b.reset();
        }
        "clone" => {
            // a clone of a builder with a past
            b.create_string("original");
            let mut c = b.clone();
            c.reset();
            b = c;
        }
        "ops" => {
            // any calls at all, refused ones included, then reset
            let mut ex = Exec { b, h: vec![], start: None, tab: vec![], refs: vec![], root: None };
            for op in how["ops"].as_array().unwrap() {
                let _ = catch_unwind(AssertUnwindSafe(|| ex.step(op)));
            }
            ex.b.reset();
            b = ex.b;
        }
        x => panic!("past {}", x),
    }
    b
}

fn exec(ops: &[Value], how: &Value) -> Outcome {
    let b = match catch_unwind(AssertUnwindSafe(|| builder(how))) {
        Ok(b) => b,
        Err(_) => {
            return Outcome {
                obs: vec![json!({"r": "panic-past", "w": -1, "n": 0, "u": 0})],
                bytes: vec![],
                finished: false,
                ex: Exec {
                    b: FlatBufferBuilder::new(),
                    h: vec![],
                    start: None,
                    tab: vec![],
                    refs: vec![],
                    root: None,
                },
            }
        }
    };
    let mut ex = Exec {
        b,
        h: vec![],
        start: None,
        tab: vec![],
        refs: vec![],
        root: None,
    };
    let mut obs = vec![];
    let mut broken = false;
    let clone_at = how["cl"].as_i64().unwrap_or(-1);
    for (k, op) in ops.iter().enumerate() {
        assert!(known(op["op"].as_str().unwrap()));
        if broken && op["op"] != "reset" {
            obs.push(json!({"r": "skip", "w": -1, "n": 0, "u": 0}));
            continue;
        }
        broken = false;
        if k as i64 == clone_at {
            // go on with a clone; what happens to the original must not matter
            let c = ex.b.clone();
            let mut old = std::mem::replace(&mut ex.b, c);
            old.reset();
            let _ = catch_unwind(AssertUnwindSafe(|| {
                old.create_byte_string(&[0x5Au8; 40]);
            }));
        }
        let r = catch_unwind(AssertUnwindSafe(|| ex.step(op)));
        match r {
            Ok(w) => obs.push(json!({
                "r": "ok",
                "w": w.map(|x| x as i64).unwrap_or(-1),
                "n": ex.b.num_written_vtables(),
                "u": ex.b.unfinished_data().len(),
            })),
            Err(_) => {
                obs.push(json!({"r": "panic", "w": -1, "n": 0, "u": 0}));
                broken = true;
            }
        }
    }
    let finished = catch_unwind(AssertUnwindSafe(|| ex.b.finished_data().len())).is_ok();
    let bytes = ex.b.unfinished_data().to_vec();
    // the other two views of the same data
    let (v, head) = ex.b.clone().collapse();
    let mut same = v.get(head..) == Some(&bytes[..]);
    if finished && !broken {
        same &= ex.b.finished_data() == &bytes[..];
    }
    if !same {
        obs.push(json!({"r": "views-differ", "w": -1, "n": 0, "u": 0}));
    }
    Outcome {
        obs,
        bytes,
        finished,
        ex,
    }
}

pub fn run(v: &Value) -> Value {
    let ops = v["ops"].as_array().unwrap();
    let hows = v["hows"].as_array().unwrap();
    // the distinct outcomes over all pasts and capacities
    let mut outs: Vec<(Value, Vec<Value>, Outcome)> = vec![];
    for how in hows {
        let o = exec(ops, how);
        let key = json!({"obs": o.obs, "b": o.bytes, "f": o.finished});
        match outs.iter_mut().find(|(k, _, _)| *k == key) {
            Some((_, hs, _)) => hs.push(how.clone()),
            None => outs.push((key, vec![how.clone()], o)),
        }
    }
    let outcomes: Vec<Value> = outs
        .into_iter()
        .map(|(_, hs, o)| {
            let panicked = o.obs.last().map_or(false, |x| x["r"] != "ok");
            let tree = if o.finished && !panicked {
                if let Some(r) = o.ex.root {
                    {
                        let fin = ops.iter().rev().find(|x| x["op"] == "fin").unwrap();
                        crate::read::readback(&o.bytes, &o.ex.h, r, fin)
                    }
                } else {
                    json!({"k": "none"})
                }
            } else {
                json!({"k": "none"})
            };
            json!({"obs": o.obs, "b": o.bytes, "f": o.finished, "tree": tree, "first": hs[0], "count": hs.len()})
        })
        .collect();
    json!({"id": v["id"], "ops": v["ops"], "out": outcomes})
}

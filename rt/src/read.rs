//! Runs reader queries and reads built buffers back.
use crate::build::{bytes, Fld, Le, Obj};
use crate::{with_scalar, with_slice_scalar};
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What generated code does for a table type.
#[derive(Clone, Copy)]
pub struct Tb<'a>(pub Table<&'a [u8]>);
impl<'a> Follow<'a> for Tb<'a> {
    type Inner = Self;
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self, Error> {
        Ok(Tb(Table::new(buf, loc)))
    }
}

/// Bytes at a chosen alignment in memory.
pub struct Mem {
    store: Vec<u64>,
    at: usize,
    len: usize,
}
impl Mem {
    pub fn new(b: &[u8], at: usize) -> Mem {
        let mut store = vec![0xA5A5_A5A5_A5A5_A5A5u64; (b.len() + at) / 8 + 3];
        let p = store.as_mut_ptr() as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8 + at), b.len());
        }
        Mem { store, at: 8 + at, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe {
            std::slice::from_raw_parts((self.store.as_ptr() as *const u8).add(self.at), self.len)
        }
    }
}

pub fn err(e: &Error) -> Value {
    let n = match e {
        Error::OutOfBounds => "OutOfBounds",
        Error::RequiredFieldMissing(_) => "RequiredFieldMissing",
        Error::NonUtf8String => "NonUtf8String",
        Error::NonNullTerminatedString => "NonNullTerminatedString",
        Error::UnknownEnumVariant => "UnknownEnumVariant",
        Error::UnknownUnionVariant => "UnknownUnionVariant",
        Error::NoTypeDefaultValue => "NoTypeDefaultValue",
        #[allow(unreachable_patterns)]
        _ => "Unaligned",
    };
    json!({"ok": false, "e": n, "p": false, "v": []})
}
pub fn ok(v: Vec<u8>) -> Value {
    json!({"ok": true, "e": "", "p": true, "v": v})
}
pub fn none() -> Value {
    json!({"ok": true, "e": "", "p": false, "v": []})
}
fn rb(r: Result<Vec<u8>, Error>) -> Value {
    match r {
        Ok(v) => ok(v),
        Err(e) => err(&e),
    }
}
fn ro(r: Result<Option<Vec<u8>>, Error>) -> Value {
    match r {
        Ok(Some(v)) => ok(v),
        Ok(None) => none(),
        Err(e) => err(&e),
    }
}
fn clamp(n: usize) -> Vec<u8> {
    (n.min(1 << 24) as u32).le()
}
fn flat<T: Le>(x: &[T]) -> Vec<u8> {
    x.iter().flat_map(|e| e.le()).collect()
}

// ---------------------------------------------------------------- readback

pub fn readback(b: &[u8], h: &[(u32, Obj)], root: usize, fin: &Value) -> Value {
    let m = Mem::new(b, 0);
    let buf = m.get();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let fin = if fin["op"] == "fin" { fin.clone() } else { json!({"kind": "plain", "id": []}) };
        let sized = fin["kind"] == "sized";
        let id = bytes(&fin["id"]);
        let (l1, l2, l3) = if sized {
            (
                Table::get_size_prefixed_root(buf).map(|t| t.loc),
                Table::get_size_prefixed_root(buf.to_vec()).map(|t| t.loc),
                get_size_prefixed_root::<Table<&[u8]>, _>(buf).map(|t| t.loc),
            )
        } else {
            (
                Table::get_root(buf).map(|t| t.loc),
                Table::get_root(buf.to_vec()).map(|t| t.loc),
                get_root::<Table<&[u8]>, _>(buf).map(|t| t.loc),
            )
        };
        let ident = |s: &str| match buffer_has_identifier(buf, s, sized) {
            Ok(x) => json!(if x { "yes" } else { "no" }),
            Err(_) => json!("err"),
        };
        let idents = if id.is_empty() {
            json!([])
        } else {
            let s = String::from_utf8(id.clone()).unwrap();
            let other: String = s.chars().rev().collect();
            json!([ident(&s), ident(if other == s { "\u{1}zzz" } else { &other })])
        };
        let locs: Vec<Value> = vec![l1.clone(), l2, l3]
            .into_iter()
            .map(|l| match l {
                Ok(l) => json!(l),
                Err(_) => json!(-1),
            })
            .collect();
        let mut budget = 400;
        let tree = match l1 {
            Ok(l) => match &h[root - 1].1 {
                Obj::Tab(f) => {
                    let t = Table::new(buf, l);
                    table(&t, f, h, &mut budget)
                }
                _ => json!({"k": "nontable"}),
            },
            Err(e) => json!({"k": "err", "e": err(&e)}),
        };
        json!({"k": "root", "locs": locs, "idents": idents, "to": tree})
    }));
    r.unwrap_or_else(|_| json!({"k": "panic"}))
}

fn table(t: &Table<&[u8]>, f: &[(u16, Fld)], h: &[(u32, Obj)], budget: &mut i32) -> Value {
    *budget -= 1;
    if *budget < 0 {
        return json!({"k": "cut"});
    }
    let mut fs = vec![];
    let mut max = 4;
    for (s, fl) in f {
        max = max.max(*s);
        match fl {
            Fld::Scalar(ty, d) => {
                let (a, b) = with_scalar!(ty.as_str(), T, {
                    (
                        ro(t.get::<T>(*s, None).map(|o| o.map(|x| x.le()))),
                        ro(t.get::<T>(*s, Some(T::of(d))).map(|o| o.map(|x| x.le()))),
                    )
                });
                fs.push(json!({"s": s, "k": "sc", "none": a, "def": b}));
            }
            Fld::Off(i) => {
                let sub = target(t, *s, &h[*i - 1].1, h, budget);
                fs.push(json!({"s": s, "k": "ref", "to": sub}));
            }
        }
    }
    // slots nobody wrote
    let mut absent = vec![];
    let mut s = 4;
    while s <= max + 4 && absent.len() < 12 {
        if !f.iter().any(|x| x.0 == s) {
            absent.push(json!({"s": s, "r": ro(t.get::<u8>(s, None).map(|o| o.map(|x| x.le())))}));
        }
        s += 2;
    }
    json!({"k": "tab", "f": fs, "absent": absent})
}

fn target(t: &Table<&[u8]>, s: u16, o: &Obj, h: &[(u32, Obj)], budget: &mut i32) -> Value {
    let missing = || json!({"k": "absent"});
    macro_rules! go {
        ($ty:ty, $x:ident, $body:expr) => {
            match t.get::<ForwardsUOffset<$ty>>(s, None) {
                Ok(Some($x)) => $body,
                Ok(None) => missing(),
                Err(e) => json!({"k": "err", "e": err(&e)}),
            }
        };
    }
    match o {
        Obj::Str => go!(&str, x, json!({"k": "str", "v": x.as_bytes()})),
        Obj::BStr => go!(&[u8], x, json!({"k": "str", "v": x})),
        Obj::Vec(ty) => with_scalar!(ty.as_str(), T, {
            match t.get::<ForwardsUOffset<Vector<'_, T>>>(s, None) {
                Ok(Some(v)) => {
                    let mut r = vec_scalars(v);
                    if ty != "bool" {
                        let o = r.as_object_mut().unwrap();
                        with_slice_scalar!(ty.as_str(), S, {
                            let sl = t.get::<ForwardsUOffset<&[S]>>(s, None).map(|o| o.map(|x| flat(x)));
                            o.insert("slice".into(), ro(sl));
                            let ss = t
                                .get::<ForwardsUOffset<Vector<'_, S>>>(s, None)
                                .and_then(|o| o.unwrap().safe_slice())
                                .map(|x| flat(x));
                            o.insert("safe".into(), rb(ss));
                        });
                    }
                    r
                }
                Ok(None) => missing(),
                Err(e) => json!({"k": "err", "e": err(&e)}),
            }
        }),
        Obj::Strs => go!(Vector<'_, ForwardsUOffset<&str>>, v, {
            let n = v.len().unwrap_or(99999);
            let get: Vec<Value> = (0..n).map(|i| rb(v.get(i).map(|x| x.as_bytes().to_vec()))).collect();
            let it: Vec<Value> = v.iter().map(|r| rb(r.map(|x| x.as_bytes().to_vec()))).collect();
            json!({"k": "strs", "len": n, "get": get, "iter": it})
        }),
        Obj::Refs(ids) => {
            // heterogeneous targets are read one by one, as what they are
            let mut el = vec![];
            let n = match t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<Tb<'_>>>>>(s, None) {
                Ok(Some(v)) => v.len().unwrap_or(99999),
                _ => 88888,
            };
            for (k, id) in ids.iter().enumerate() {
                el.push(match &h[*id - 1].1 {
                    Obj::Str => match t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<&str>>>>(s, None) {
                        Ok(Some(v)) if k < n => match v.get(k) {
                            Ok(x) => json!({"k": "str", "v": x.as_bytes()}),
                            Err(e) => json!({"k": "err", "e": err(&e)}),
                        },
                        _ => missing(),
                    },
                    Obj::BStr => match t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<&[u8]>>>>(s, None) {
                        Ok(Some(v)) if k < n => match v.get(k) {
                            Ok(x) => json!({"k": "str", "v": x}),
                            Err(e) => json!({"k": "err", "e": err(&e)}),
                        },
                        _ => missing(),
                    },
                    Obj::Tab(f) => match t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<Tb<'_>>>>>(s, None) {
                        Ok(Some(v)) if k < n => match v.get(k) {
                            Ok(x) => table(&x.0, f, h, budget),
                            Err(e) => json!({"k": "err", "e": err(&e)}),
                        },
                        _ => missing(),
                    },
                    Obj::Vec(ty) => with_scalar!(ty.as_str(), T, {
                        match t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<Vector<'_, T>>>>>(s, None) {
                            Ok(Some(v)) if k < n => match v.get(k) {
                                Ok(x) => vec_scalars(x),
                                Err(e) => json!({"k": "err", "e": err(&e)}),
                            },
                            _ => missing(),
                        }
                    }),
                    Obj::Strs | Obj::Refs(_) => json!({"k": "skip"}),
                });
            }
            json!({"k": "refs", "len": n, "el": el})
        }
        Obj::Tab(f) => go!(Tb<'_>, x, table(&x.0, f, h, budget)),
    }
}

fn vec_scalars<'a, T: Follow<'a, Inner = T> + Le + 'a>(v: Vector<'a, T>) -> Value {
    let n = match v.len() {
        Ok(n) => n,
        Err(e) => return json!({"k": "err", "e": err(&e)}),
    };
    let get: Vec<Value> = (0..n.min(4000)).map(|i| rb(v.get(i).map(|x| x.le()))).collect();
    let it: Vec<Value> = v.iter().take(4000).map(|r| rb(r.map(|x| x.le()))).collect();
    let mut back: Vec<Value> = v.iter().rev().take(4000).map(|r| rb(r.map(|x| x.le()))).collect();
    back.reverse();
    let emp = match v.is_empty() {
        Ok(true) => "yes",
        Ok(false) => "no",
        Err(_) => "err",
    };
    json!({"k": "vec", "len": n, "empty": emp, "get": get, "iter": it, "back": back})
}

// ---------------------------------------------------------------- queries

fn elem<'a>(t: &str, tb: &'a Table<&'a [u8]>, q: &Value) -> Value {
    let s = q["s"].as_u64().unwrap() as u16;
    let k = q["k"].as_str().unwrap();
    let i = q["i"].as_u64().unwrap_or(0) as usize;
    macro_rules! vecq {
        ($E:ty, $conv:expr) => {{
            let r: Result<Option<Vector<'_, $E>>, Error> = tb.get::<ForwardsUOffset<Vector<'_, $E>>>(s, None);
            match r {
                Err(e) => err(&e),
                Ok(None) => none(),
                Ok(Some(v)) => match k {
                    "vget" => match v.len() {
                        Err(e) => err(&e),
                        Ok(n) if i >= n => none(),
                        Ok(_) => rb(v.get(i).map($conv)),
                    },
                    "viter" => {
                        let it = v.iter();
                        let n = it.len();
                        let el: Vec<Value> = it.take(i).map(|r| rb(r.map($conv))).collect();
                        json!({"ok": true, "e": "", "p": true, "v": clamp(n), "el": el})
                    }
                    "vback" => {
                        let it = v.iter();
                        let (n, _) = it.size_hint();
                        let el: Vec<Value> = it.rev().take(i).map(|r| rb(r.map($conv))).collect();
                        json!({"ok": true, "e": "", "p": true, "v": clamp(n), "el": el})
                    }
                    _ => panic!("k"),
                },
            }
        }};
    }
    match t {
        "str" => vecq!(ForwardsUOffset<&str>, |x| x.as_bytes().to_vec()),
        "bs" => vecq!(ForwardsUOffset<&[u8]>, |x| x.to_vec()),
        "tab" => vecq!(ForwardsUOffset<Tb<'_>>, |x| clamp(x.0.loc)),
        t => with_scalar!(t, T, { vecq!(T, |x| x.le()) }),
    }
}

fn term(tb: &Table<&[u8]>, q: &Value) -> Value {
    let k = q["k"].as_str().unwrap();
    let s = q["s"].as_u64().unwrap_or(0) as u16;
    let t = q["t"].as_str().unwrap_or("");
    let i = q["i"].as_u64().unwrap_or(0) as usize;
    match k {
        "loc" => ok(clamp(tb.loc)),
        "sc" => {
            let d = bytes(&q["d"]);
            with_scalar!(t, T, {
                let d = if d.is_empty() { None } else { Some(T::of(&d)) };
                ro(tb.get::<T>(s, d).map(|o| o.map(|x| x.le())))
            })
        }
        "str" => ro(tb.get::<ForwardsUOffset<&str>>(s, None).map(|o| o.map(|x| x.as_bytes().to_vec()))),
        "bs" => ro(tb.get::<ForwardsUOffset<&[u8]>>(s, None).map(|o| o.map(|x| x.to_vec()))),
        "sl" => with_slice_scalar!(t, T, {
            ro(tb.get::<ForwardsUOffset<&[T]>>(s, None).map(|o| o.map(|x| flat(x))))
        }),
        "vss" => with_slice_scalar!(t, T, {
            match tb.get::<ForwardsUOffset<Vector<'_, T>>>(s, None) {
                Err(e) => err(&e),
                Ok(None) => none(),
                Ok(Some(v)) => rb(v.safe_slice().map(|x| flat(x))),
            }
        }),
        "vlen" => match tb.get::<ForwardsUOffset<Vector<'_, u8>>>(s, None) {
            Err(e) => err(&e),
            Ok(None) => none(),
            Ok(Some(v)) => rb(v.len().map(|n| (n as u32).le())),
        },
        "vempty" => match tb.get::<ForwardsUOffset<Vector<'_, u8>>>(s, None) {
            Err(e) => err(&e),
            Ok(None) => none(),
            Ok(Some(v)) => rb(v.is_empty().map(|x| vec![x as u8])),
        },
        "vget" | "viter" | "vback" => elem(t, tb, q),
        "vv" => {
            let j = q["j"].as_u64().unwrap() as usize;
            match tb.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<Vector<'_, u16>>>>>(s, None) {
                Err(e) => err(&e),
                Ok(None) => none(),
                Ok(Some(v)) => match v.len() {
                    Err(e) => err(&e),
                    Ok(n) if i >= n => none(),
                    Ok(_) => match v.get(i) {
                        Err(e) => err(&e),
                        Ok(w) => match w.len() {
                            Err(e) => err(&e),
                            Ok(n) if j >= n => none(),
                            Ok(_) => rb(w.get(j).map(|x| x.le())),
                        },
                    },
                },
            }
        }
        "vt" => match tb.vtable() {
            Err(e) => err(&e),
            Ok(v) => match t {
                "num_bytes" => rb(v.num_bytes().map(clamp)),
                "num_fields" => rb(v.num_fields().map(clamp)),
                "inline" => rb(v.object_inline_num_bytes().map(clamp)),
                "get" => ro(v.get(s).map(|o| o.map(|x| x.le()))),
                "get_field" => ro(v.get_field(i).map(|o| o.map(|x| x.le()))),
                "as_bytes" => rb(v.as_bytes().map(|x| x.to_vec())),
                _ => panic!("vt"),
            },
        },
        "opt" => panic!("opt"),
        x => panic!("query {}", x),
    }
}

fn walk(tb: &Table<&[u8]>, path: &[Value], q: &Value) -> Value {
    if path.is_empty() {
        return term(tb, q);
    }
    let s = path[0]["s"].as_u64().unwrap() as u16;
    let i = path[0]["i"].as_i64().unwrap();
    if i < 0 {
        match tb.get::<ForwardsUOffset<Tb<'_>>>(s, None) {
            Err(e) => err(&e),
            Ok(None) => none(),
            Ok(Some(t)) => walk(&t.0, &path[1..], q),
        }
    } else {
        match tb.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<Tb<'_>>>>>(s, None) {
            Err(e) => err(&e),
            Ok(None) => none(),
            Ok(Some(v)) => match v.len() {
                Err(e) => err(&e),
                Ok(n) if i as usize >= n => none(),
                Ok(_) => match v.get(i as usize) {
                    Err(e) => err(&e),
                    Ok(t) => walk(&t.0, &path[1..], q),
                },
            },
        }
    }
}

fn query(buf: &[u8], q: &Value) -> Value {
    let k = q["k"].as_str().unwrap();
    let sp = q["sp"].as_bool().unwrap_or(false);
    // the three ways to find the root must agree before anything else is asked
    let at = q["at"].as_i64().unwrap_or(-1);
    match k {
        "id" => {
            let id = String::from_utf8(bytes(&q["d"])).unwrap();
            return rb(buffer_has_identifier(buf, &id, sp).map(|x| vec![x as u8]));
        }
        "rsat" => {
            // read_scalar_at a location; -1 stands for the largest one
            let loc = if at < 0 { usize::max_value() } else { at as usize };
            return with_scalar!(q["t"].as_str().unwrap(), T, {
                rb(<T as Follow>::follow(buf, loc).map(|x| x.le()))
            });
        }
        "rs" => {
            let at = (at.max(0) as usize).min(buf.len());
            return with_slice_scalar!(q["t"].as_str().unwrap(), T, {
                rb(read_scalar::<T>(&buf[at..]).map(|x| x.le()))
            });
        }
        "fol" => {
            let loc = at.max(0) as usize;
            return match q["t"].as_str().unwrap() {
                "voff" => rb(<ForwardsVOffset<u16>>::follow(buf, loc).map(|x| x.le())),
                "uoff" => rb(<ForwardsUOffset<u16>>::follow(buf, loc).map(|x| x.le())),
                "soff" => rb(<BackwardsSOffset<u16>>::follow(buf, loc).map(|x| x.le())),
                "skipid" => rb(<SkipFileIdentifier<u16>>::follow(buf, loc).map(|x| x.le())),
                "skipsz" => rb(<SkipSizePrefix<u16>>::follow(buf, loc).map(|x| x.le())),
                "skiproot" => rb(<SkipRootOffset<u16>>::follow(buf, loc).map(|x| x.le())),
                "ident" => rb(<FileIdentifier>::follow(buf, loc).map(|x| x.to_vec())),
                "start" => rb(FollowStart::<u16>::new().self_follow(buf, loc).map(|x| x.le())),
                x => panic!("fol {}", x),
            };
        }
        _ => {}
    }
    let root = if sp {
        get_size_prefixed_root::<Table<&[u8]>, _>(buf)
    } else {
        get_root::<Table<&[u8]>, _>(buf)
    };
    let root2 = if sp {
        Table::get_size_prefixed_root(buf.to_vec()).map(|t| t.loc)
    } else {
        Table::get_root(buf.to_vec()).map(|t| t.loc)
    };
    match root {
        Err(e) => {
            if root2.is_ok() {
                return json!({"ok": false, "e": "RootsDisagree", "p": false, "v": []});
            }
            err(&e)
        }
        Ok(t) => {
            if root2 != Ok(t.loc) {
                return json!({"ok": false, "e": "RootsDisagree", "p": false, "v": []});
            }
            walk(&t, q["path"].as_array().unwrap(), q)
        }
    }
}

pub fn run(v: &Value) -> Value {
    let b = bytes(&v["b"]);
    let m = Mem::new(&b, v["al"].as_u64().unwrap() as usize);
    let buf = m.get();
    let rs: Vec<Value> = v["qs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|q| {
            catch_unwind(AssertUnwindSafe(|| query(buf, q)))
                .unwrap_or_else(|_| json!({"ok": false, "e": "PANIC", "p": false, "v": []}))
        })
        .collect();
    json!({"id": v["id"], "al": v["al"], "b": v["b"], "qs": v["qs"], "rs": rs})
}

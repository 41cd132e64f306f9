//! Runs iterator call sequences on vectors.
use crate::build::{Le};
use crate::read::{err, ok, Mem, Tb};
use crate::with_scalar;
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn nn(v: &Value) -> usize {
    // -1 stands for the largest one, -2 for a number whose product with the element size overflows
    match v.as_i64().unwrap() {
        -1 => usize::max_value(),
        -2 => usize::max_value() / 2 + 2,
        -3 => usize::max_value() / 4 + 1,
        n => n as usize,
    }
}

fn drive<'a, T, F>(v: Vector<'a, T>, ops: &[Value], conv: F) -> Vec<Value>
where
    T: Follow<'a> + 'a,
    F: Fn(T::Inner) -> Vec<u8> + Copy,
{
    let mut its: Vec<VectorIter<'a, T>> = vec![v.iter()];
    let mut out = vec![];
    let item = |o: Option<Result<T::Inner, Error>>| match o {
        None => json!({"ok": true, "e": "", "p": false, "v": []}),
        Some(Ok(x)) => ok(conv(x)),
        Some(Err(e)) => {
            let mut j = err(&e);
            j["p"] = json!(true);
            j
        }
    };
    for op in ops {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let w = op["w"].as_u64().unwrap() as usize - 1;
            let n = nn(&op["n"]);
            match op["op"].as_str().unwrap() {
                "next" => item(its[w].next()),
                "back" => item(its[w].next_back()),
                "nth" => item(its[w].nth(n)),
                "nthb" => item(its[w].nth_back(n)),
                "len" => {
                    let (lo, hi) = its[w].size_hint();
                    let l = its[w].len();
                    if hi == Some(lo) && lo == l {
                        ok((l.min(1 << 24) as u32).le())
                    } else {
                        json!({"ok": false, "e": "HintDisagrees", "p": true, "v": []})
                    }
                }
                "clone" => {
                    let c = its[w].clone();
                    its.push(c);
                    ok(vec![])
                }
                "into" => {
                    its.push(v.into_iter());
                    ok(vec![])
                }
                "intoref" => {
                    let r = &v;
                    its.push(r.into_iter());
                    ok(vec![])
                }
                "count" => {
                    let c = its[w].clone().take(5000).count();
                    ok((c as u32).le())
                }
                "last" => {
                    let c = its[w].clone();
                    if c.len() > 5000 { ok(vec![]) } else { item(c.last()) }
                }
                "all" => {
                    let c = its[w].clone();
                    let e: Vec<Value> = c.take(64).map(|r| item(Some(r))).collect();
                    json!({"ok": true, "e": "", "p": true, "v": [], "el": e})
                }
                x => panic!("iter op {}", x),
            }
        }));
        match r {
            Ok(x) => out.push(x),
            Err(_) => {
                out.push(json!({"ok": false, "e": "PANIC", "p": false, "v": []}));
                break;
            }
        }
    }
    out
}

pub fn run(v: &Value) -> Value {
    let b = crate::build::bytes(&v["b"]);
    let m = Mem::new(&b, v["al"].as_u64().unwrap() as usize);
    let buf = m.get();
    let loc = v["loc"].as_u64().unwrap() as usize;
    let ops = v["ops"].as_array().unwrap();
    let rs = match v["t"].as_str().unwrap() {
        "str" => drive(Vector::<ForwardsUOffset<&str>>::new(buf, loc), ops, |x| x.as_bytes().to_vec()),
        "tab" => drive(Vector::<ForwardsUOffset<Tb<'_>>>::new(buf, loc), ops, |x| (x.0.loc.min(1 << 24) as u32).le()),
        t => with_scalar!(t, T, { drive(Vector::<T>::new(buf, loc), ops, |x| x.le()) }),
    };
    json!({"id": v["id"], "t": v["t"], "al": v["al"], "loc": v["loc"], "b": v["b"], "ops": v["ops"], "rs": rs})
}

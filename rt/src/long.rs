//! Vectors and strings of more elements than 16 bits count, written in each way
//! there is; element `i` has the value `i % 251 + 1`. Read at some places by
//! index, as a slice and by iteration from both ends.
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(v: &Value) -> Value {
    let n = v["n"].as_u64().unwrap() as usize;
    let at: Vec<usize> = v["at"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let how = v["how"].as_str().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| match v["t"].as_str().unwrap() {
        "str" => strings(n, &at),
        "text" => text(n, &at),
        "u16" => numbers::<u16>(n, how, &at, |x| x as u16, |x| x as i64),
        "i32" => numbers::<i32>(n, how, &at, |x| x as i32, |x| x as i64),
        "f64" => numbers::<f64>(n, how, &at, |x| x as f64, |x| x as i64),
        _ => numbers::<u8>(n, how, &at, |x| x as u8, |x| x as i64),
    }));
    let mut x = r.unwrap_or_else(|_| json!({"r": "panic", "len": 0, "get": [], "slice": [], "nth": [], "back": [], "count": 0}));
    for k in &["id", "t", "n", "how", "at"] {
        x[*k] = v[*k].clone();
    }
    x
}

fn put(b: &mut FlatBufferBuilder, o: UOffsetT) -> Vec<u8> {
    let t = b.start_table();
    b.push_slot_always(4, WIPOffset::<UnionWIPOffset>::new(o));
    let t = b.end_table(t);
    b.finish(t, None);
    b.finished_data().to_vec()
}

fn numbers<T: Push + Copy + EndianScalar + SafeSliceAccess + for<'a> Follow<'a, Inner = T>>(
    n: usize,
    how: &str,
    at: &[usize],
    to: impl Fn(usize) -> T,
    from: impl Fn(T) -> i64,
) -> Value {
    let xs: Vec<T> = (0..n).map(|i| to(i % 251 + 1)).collect();
    let mut b = FlatBufferBuilder::new();
    let o = match how {
        "direct" => b.create_vector_direct(&xs).value(),
        "push" => {
            b.start_vector::<T>(n);
            for x in xs.iter().rev() {
                b.push(*x);
            }
            b.end_vector::<T>(n).value()
        }
        _ => b.create_vector(&xs).value(),
    };
    // at an address that suits every type
    let data = put(&mut b, o);
    let mut mem = vec![0u64; data.len() / 8 + 1];
    let buf = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, data.len()) };
    buf.copy_from_slice(&data);
    let t = Table::get_root(&*buf).unwrap();
    let v = t.get::<ForwardsUOffset<Vector<'_, T>>>(4, None).unwrap().unwrap();
    let s = t.get::<ForwardsUOffset<&[T]>>(4, None).unwrap().unwrap();
    let one = |x: Option<Result<T, Error>>| x.map_or(-1, |y| y.map_or(-2, |z| from(z)));
    json!({"r": "ok", "len": v.len().unwrap(), "count": v.iter().count(),
        "get": at.iter().map(|i| from(v.get(*i).unwrap())).collect::<Vec<_>>(),
        "slice": at.iter().map(|i| s.get(*i).map_or(-1, |x| from(*x))).collect::<Vec<_>>(),
        "nth": at.iter().map(|i| one(v.iter().nth(*i))).collect::<Vec<_>>(),
        "back": at.iter().map(|i| one(v.iter().nth_back(n - 1 - *i))).collect::<Vec<_>>()})
}

fn strings(n: usize, at: &[usize]) -> Value {
    let xs: Vec<String> = (0..n).map(|i| (i % 251 + 1).to_string()).collect();
    let ys: Vec<&str> = xs.iter().map(|x| x.as_str()).collect();
    let mut b = FlatBufferBuilder::new();
    let o = b.create_vector_of_strings(&ys).value();
    let data = put(&mut b, o);
    let t = Table::get_root(&data[..]).unwrap();
    let v = t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<&str>>>>(4, None).unwrap().unwrap();
    let num = |x: Result<&str, Error>| x.map_or(-2, |y| y.parse::<i64>().unwrap_or(-3));
    let get = at.iter().map(|i| num(v.get(*i))).collect::<Vec<_>>();
    json!({"r": "ok", "len": v.len().unwrap(), "count": v.iter().count(), "get": get, "slice": get,
        "nth": at.iter().map(|i| v.iter().nth(*i).map_or(-1, num)).collect::<Vec<_>>(),
        "back": at.iter().map(|i| v.iter().nth_back(n - 1 - *i).map_or(-1, num)).collect::<Vec<_>>()})
}

// characters 1 to 127 are one byte each, so the value is taken modulo 127
fn text(n: usize, at: &[usize]) -> Value {
    let xs: String = (0..n).map(|i| (i % 127 + 1) as u8 as char).collect();
    let mut b = FlatBufferBuilder::new();
    let o = b.create_string(&xs).value();
    let data = put(&mut b, o);
    let t = Table::get_root(&data[..]).unwrap();
    let s = t.get::<ForwardsUOffset<&str>>(4, None).unwrap().unwrap();
    let x = t.get::<ForwardsUOffset<&[u8]>>(4, None).unwrap().unwrap();
    let get = at.iter().map(|i| s.as_bytes().get(*i).map_or(-1, |c| i64::from(*c))).collect::<Vec<_>>();
    let sl = at.iter().map(|i| x.get(*i).map_or(-1, |c| i64::from(*c))).collect::<Vec<_>>();
    json!({"r": "ok", "len": s.len(), "count": x.len(), "get": get, "slice": sl, "nth": get, "back": get})
}

//! Buffers around the limit of two gigabytes: a builder of capacity `cap`, then
//! blocks of `n` bytes, then a table that refers to all of them. Lengths are
//! given as [n / 65536, n % 65536].
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn num(v: &Value) -> usize {
    (v[0].as_u64().unwrap() * 65536 + v[1].as_u64().unwrap()) as usize
}
fn pair(n: usize) -> Value {
    json!([n / 65536, n % 65536])
}

pub fn run(v: &Value) -> Value {
    let cap = num(&v["cap"]);
    let mut x = json!({"id": v["id"], "cap": v["cap"], "blocks": v["blocks"], "new": "panic", "steps": [], "end": "none", "got": [], "used": [0, 0], "again": true});
    let mut b = match catch_unwind(|| FlatBufferBuilder::new_with_capacity(cap)) {
        Ok(b) => b,
        Err(_) => return x,
    };
    x["new"] = json!("ok");
    let (mut steps, mut at, mut all) = (vec![], vec![], true);
    for k in v["blocks"].as_array().unwrap() {
        let data = vec![0u8; num(&k["n"])];
        let used = pair(b.unfinished_data().len());
        let r = catch_unwind(AssertUnwindSafe(|| match k["k"].as_str().unwrap() {
            "s" => b.create_byte_string(&data).value(),
            _ => b.create_vector_direct(&data).value(),
        }));
        steps.push(json!({"used": used, "r": if r.is_ok() { "ok" } else { "panic" }}));
        match r {
            Ok(o) => at.push(o),
            Err(_) => {
                all = false;
                break;
            }
        }
    }
    x["steps"] = json!(steps);
    x["used"] = pair(b.unfinished_data().len());
    if all {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let t = b.start_table();
            for (i, o) in at.iter().enumerate() {
                b.push_slot_always(4 + 2 * i as u16, WIPOffset::<Vector<u8>>::new(*o));
            }
            let t = b.end_table(t);
            b.finish(t, None);
            let t = Table::get_root(b.finished_data()).unwrap();
            let got: Vec<Value> = (0..at.len())
                .map(|i| match t.get::<ForwardsUOffset<Vector<u8>>>(4 + 2 * i as u16, None) {
                    Ok(Some(x)) => pair(x.len().unwrap()),
                    _ => json!([-1, -1]),
                })
                .collect();
            got
        }));
        x["end"] = json!(if r.is_ok() { "ok" } else { "panic" });
        x["got"] = json!(r.unwrap_or_default());
    }
    x["again"] = json!(catch_unwind(AssertUnwindSafe(|| {
        b.reset();
        let t = b.start_table();
        let t = b.end_table(t);
        b.finish(t, None);
        b.finished_data().len()
    }))
    .is_ok());
    x
}

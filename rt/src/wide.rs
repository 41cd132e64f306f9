//! Tables around the limits of 16-bit offsets: `n` fields of one type, after
//! `pre` other bytes, the last one at slot `last`.
use crate::with_slice_scalar_u;
use butte::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn small(b: &mut FlatBufferBuilder) -> Vec<u8> {
    let t = b.start_table();
    b.push_slot_always(4, 7u8);
    let t = b.end_table(t);
    b.finish(t, None);
    b.finished_data().to_vec()
}

pub fn run(v: &Value) -> Value {
    let num = |k: &str| v[k].as_u64().unwrap() as usize;
    let (n, last, pre) = (num("n"), num("last"), num("pre"));
    let slot = |i: usize| if i + 1 == n { last as u16 } else { (4 + 2 * i) as u16 };
    let mut b = FlatBufferBuilder::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        with_slice_scalar_u!(v["t"].as_str().unwrap(), T, {
            b.create_byte_string(&vec![255u8; pre]);
            let t = b.start_table();
            for i in 0..n {
                b.push_slot_always(slot(i), (i % 251 + 1) as T);
            }
            let t = b.end_table(t);
            b.finish(t, None);
            let data = b.finished_data();
            let t = Table::get_root(data).unwrap();
            let got: Vec<i64> = (0..n)
                .map(|i| match t.get::<T>(slot(i), None) {
                    Ok(Some(x)) => x as i64,
                    _ => -1,
                })
                .collect();
            let u16_ = |p: usize| i64::from(u16::from_le_bytes([data[p], data[p + 1]]));
            let mut w = [0u8; 4];
            w.copy_from_slice(&data[t.loc..t.loc + 4]);
            let vt = (t.loc as i64 - i64::from(i32::from_le_bytes(w))) as usize;
            json!({"r": "ok", "got": got, "vlen": u16_(vt), "olen": u16_(vt + 2), "len": data.len(), "loc": t.loc, "vt": vt})
        })
    }));
    let mut x = r.unwrap_or_else(|_| json!({"r": "panic", "got": [], "vlen": 0, "olen": 0, "len": 0, "loc": 0, "vt": 0}));
    // usable again?
    let again = catch_unwind(AssertUnwindSafe(|| {
        b.reset();
        small(&mut b)
    }));
    x["again"] = json!(again.ok() == Some(small(&mut FlatBufferBuilder::new())));
    for k in &["id", "t", "n", "last", "pre"] {
        x[*k] = v[*k].clone();
    }
    x
}

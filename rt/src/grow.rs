//! Buffers of many kilobytes, built by the same calls on builders of different
//! capacities and pasts. Only their length and a digest of their bytes is
//! recorded, the builder's count of vtables, and how many of the bytes are out of
//! order: at a place their size does not divide, part of two objects, of none and
//! yet not zero, or of another value than was written.
use butte::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Item {
    kind: usize,
    k: usize,
    at: UOffsetT,
    refers: UOffsetT,
}

fn items(b: &mut FlatBufferBuilder<'_>, size: usize, mix: &str, salt: usize, all: &mut Vec<Item>) -> UOffsetT {
    let mut last: UOffsetT = 0;
    let mut k = salt;
    while b.unfinished_data().len() < size {
        k += 1;
        let kind = match mix {
            "strings" => 0,
            "tables" => 1 + k % 2,
            "vectors" => 3 + k % 2,
            _ => k % 5,
        };
        let refers = last;
        last = match kind {
            0 => b.create_string(&"\u{7f}x".repeat(1 + k * 7 % 97)).value(),
            3 => b.create_vector(&vec![0x5a5au16; 1 + k % 63]).value(),
            4 => b.create_vector_direct(&vec![u64::max_value(); 1 + k % 31]).value(),
            _ => {
                let t = b.start_table();
                b.push_slot_always::<u8>(4, 255);
                if kind == 1 {
                    b.push_slot_always::<u64>(8, u64::max_value());
                }
                b.push_slot::<u16>(6, (k % 3) as u16, 0);
                if last != 0 {
                    b.push_slot_always(10, WIPOffset::<UnionWIPOffset>::new(last));
                }
                b.end_table(t).value()
            }
        };
        all.push(Item { kind, k, at: last, refers });
    }
    last
}

#[derive(Default)]
struct Order {
    misplaced: usize,
    shared: usize,
    dirty: usize,
    wrong: usize,
}

/// What of a finished buffer is out of order.
fn order(data: &[u8], all: &[Item]) -> Order {
    let mut o = Order::default();
    let mut seen = vec![false; data.len()];
    let mut vtables = std::collections::BTreeSet::new();
    // takes a number of bytes, which are to be a little-endian value of that size
    let mut take = |o: &mut Order, at: usize, size: usize, want: Option<u64>| -> u64 {
        if at + size > data.len() {
            o.wrong += 1;
            return 0;
        }
        if at % size != 0 {
            o.misplaced += 1;
        }
        let mut x = 0;
        for i in (at..at + size).rev() {
            if seen[i] {
                o.shared += 1;
            }
            seen[i] = true;
            x = x << 8 | u64::from(data[i]);
        }
        if want.map_or(false, |w| w != x) {
            o.wrong += 1;
        }
        x
    };
    for i in all {
        let at = data.len() - i.at as usize;
        match i.kind {
            0 => {
                let n = 2 * (1 + i.k * 7 % 97);
                take(&mut o, at, 4, Some(n as u64));
                for j in 0..n {
                    take(&mut o, at + 4 + j, 1, Some(if j % 2 == 0 { 0x7f } else { 0x78 }));
                }
                take(&mut o, at + 4 + n, 1, Some(0));
            }
            3 => {
                let n = 1 + i.k % 63;
                take(&mut o, at, 4, Some(n as u64));
                for j in 0..n {
                    take(&mut o, at + 4 + 2 * j, 2, Some(0x5a5a));
                }
            }
            4 => {
                let n = 1 + i.k % 31;
                take(&mut o, at, 4, Some(n as u64));
                for j in 0..n {
                    take(&mut o, at + 4 + 8 * j, 8, Some(u64::max_value()));
                }
            }
            _ => {
                let d = take(&mut o, at, 4, None) as u32 as i32;
                let vt = (at as i64 - i64::from(d)) as usize;
                if vt + 4 > data.len() {
                    o.wrong += 1;
                    continue;
                }
                let entry = |j: usize| usize::from(data[vt + j]) + 256 * usize::from(data[vt + j + 1]);
                let n = entry(0);
                if n < 4 || vt + n > data.len() {
                    o.wrong += 1;
                    continue;
                }
                if vtables.insert(vt) {
                    for j in (0..n).step_by(2) {
                        take(&mut o, vt + j, 2, None);
                    }
                }
                let k16 = (i.k % 3) as u64;
                let refers = i.refers != 0;
                let slots = [(4, 1, Some(255)), (6, 2, Some(k16).filter(|x| *x != 0)), (8, 8, Some(u64::max_value()).filter(|_| i.kind == 1)), (10, 4, Some(0).filter(|_| refers))];
                for (slot, size, want) in &slots {
                    let f = if *slot + 2 <= n { entry(*slot) } else { 0 };
                    match want {
                        Some(w) if f != 0 => {
                            let to = data.len() - i.refers as usize;
                            let want = if *slot == 10 { to.wrapping_sub(at + f) as u64 } else { *w };
                            take(&mut o, at + f, *size, Some(want));
                        }
                        None if f == 0 => (),
                        _ => o.wrong += 1,
                    }
                }
            }
        }
    }
    // the root offset and identifier, the root table and its vtable
    let root = take(&mut o, 0, 4, None) as usize;
    for j in 0..4 {
        take(&mut o, 4 + j, 1, Some(u64::from(b"GROW"[j])));
    }
    let d = take(&mut o, root, 4, None) as u32 as i32;
    let vt = (root as i64 - i64::from(d)) as usize;
    if vt + 6 <= data.len() {
        let f = usize::from(data[vt + 4]) + 256 * usize::from(data[vt + 5]);
        if vtables.insert(vt) {
            for j in (0..6).step_by(2) {
                take(&mut o, vt + j, 2, None);
            }
        }
        take(&mut o, root + f, 4, None);
    } else {
        o.wrong += 1;
    }
    o.dirty = seen.iter().zip(data).filter(|(s, x)| !**s && **x != 0).count();
    o
}

fn one(how: &Value, size: usize, mix: &str) -> Value {
    let mut b = FlatBufferBuilder::new_with_capacity(how["cap"].as_u64().unwrap() as usize);
    match how["past"].as_str().unwrap() {
        "same" | "other" => {
            let other = how["past"] == "other";
            let n = if other { 3 * size } else { size };
            let o = items(&mut b, n, if other { "all" } else { mix }, if other { 17 } else { 0 }, &mut Vec::new());
            root(&mut b, o);
            b.reset();
        }
        "dropped" => {
            let v = vec![0xffu8; 2 * size];
            b.create_vector_direct(&v);
            b.start_vector::<u64>(size / 16);
            for _ in 0..size / 16 {
                b.push(u64::max_value());
            }
            b.reset();
        }
        "clone" => {
            let v = vec![0xffu8; size];
            b.create_byte_string(&v);
            let mut c = b.clone();
            c.reset();
            b = c;
        }
        _ => (),
    }
    let mut all = Vec::new();
    let o = items(&mut b, size, mix, 0, &mut all);
    let n = b.num_written_vtables();
    root(&mut b, o);
    let x = order(b.finished_data(), &all);
    let mut h = DefaultHasher::new();
    b.finished_data().hash(&mut h);
    json!({"r": "ok", "len": b.finished_data().len(), "sum": format!("{:x}", h.finish()), "vts": n,
        "misplaced": x.misplaced, "shared": x.shared, "dirty": x.dirty, "wrong": x.wrong})
}

fn root(b: &mut FlatBufferBuilder<'_>, o: UOffsetT) {
    let t = b.start_table();
    b.push_slot_always(4, WIPOffset::<UnionWIPOffset>::new(o));
    let t = b.end_table(t);
    b.finish(t, Some("GROW"));
}

pub fn run(v: &Value) -> Value {
    let size = v["size"].as_u64().unwrap() as usize;
    let mix = v["mix"].as_str().unwrap();
    let out: Vec<Value> = v["hows"]
        .as_array()
        .unwrap()
        .iter()
        .map(|h| catch_unwind(AssertUnwindSafe(|| one(h, size, mix))).unwrap_or_else(|_| json!({"r": "panic", "len": 0, "sum": "", "vts": 0, "misplaced": 0, "shared": 0, "dirty": 0, "wrong": 0})))
        .collect();
    let mut x = v.clone();
    x["out"] = json!(out);
    x
}

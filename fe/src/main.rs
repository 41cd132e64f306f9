//! Executor for the schema compiler: parses and compiles the schema texts it is
//! given as JSON lines with the real `butte-build` crate and logs what came out
//! (syntax tree, generated code, calls of the RPC generator). It judges nothing;
//! TLC does.
mod ast;
mod code;
mod io;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "way" {
        io::way(&a[2..]);
    }
    if a.len() < 4 {
        eprintln!("usage: fe parse|compile|gen IN OUT [START]");
        std::process::exit(2);
    }
    // panics are data
    std::panic::set_hook(Box::new(|_| {}));
    let start: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let input = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).unwrap();
    for (i, line) in input.lines().enumerate() {
        if i < start {
            continue;
        }
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let text = v["text"].as_str().unwrap_or("").to_string();
        let mut r = match a[1].as_str() {
            "parse" => ast::run(&text),
            "compile" => code::run(&text, v["detail"].as_bool().unwrap_or(false)),
            "gen" => code::gen(&text),
            "brief" => json!({"r": code::gen(&text)["r"]}),
            "io" => io::run(&v),
            _ => panic!("mode"),
        };
        r.as_object_mut().unwrap().insert("id".into(), v["id"].clone());
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"r": "panic"}))
}

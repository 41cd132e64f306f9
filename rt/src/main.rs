//! Executor for the runtime part of the specification: it runs call sequences
//! (`build`) and reader queries (`read`), both given as JSON lines, on the real
//! `butte` crate and logs what was observed. It judges nothing; TLC does.
mod build;
mod read;
mod iter;
mod wide;
mod big;
mod long;
mod grow;

use std::io::{BufRead, Write};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: rt build|read|iter|wide|big|long IN OUT [START]");
        std::process::exit(2);
    }
    // panics are data
    std::panic::set_hook(Box::new(|_| {}));
    let start: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let input = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    // one output line per input line, flushed per line: a line that is missing
    // when the process dies is the one that killed it
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&a[3])
        .unwrap();
    for (i, line) in input.lines().enumerate() {
        if i < start {
            continue;
        }
        let line = line.unwrap();
        let v: serde_json::Value = serde_json::from_str(&line).unwrap();
        let r = match a[1].as_str() {
            "build" => build::run(&v),
            "read" => read::run(&v),
            "iter" => iter::run(&v),
            "wide" => wide::run(&v),
            "big" => big::run(&v),
            "long" => long::run(&v),
            "grow" => grow::run(&v),
            _ => panic!("mode"),
        };
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}

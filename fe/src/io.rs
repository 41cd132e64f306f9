//! The compiler between a source and a sink that do as they are told, and log it.
use butte_build::{compile_fbs, compile_fbs_generic};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{Error, ErrorKind, Read, Result, Write},
    rc::Rc,
};

type Log = Rc<RefCell<Vec<Value>>>;
fn ev(log: &Log, k: &str, n: usize) {
    log.borrow_mut().push(json!({"k": k, "n": n}));
}

/// Events to come, then: everything at once.
fn next(plan: &mut Vec<Value>) -> (String, usize) {
    if plan.is_empty() {
        return ("all".into(), usize::max_value());
    }
    let v = plan.remove(0);
    let n = v["n"].as_u64().unwrap() as usize;
    (v["k"].as_str().unwrap().into(), if n == 0 { usize::max_value() } else { n })
}

struct Source(Vec<u8>, usize, Vec<Value>, Log);
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let (k, n) = next(&mut self.2);
        match k.as_str() {
            "ri" => {
                ev(&self.3, "ri", 0);
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            "rf" => {
                ev(&self.3, "rf", 0);
                Err(Error::new(ErrorKind::Other, "no more"))
            }
            _ => {
                let n = n.min(b.len()).min(self.0.len() - self.1);
                b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
                self.1 += n;
                ev(&self.3, "r", n);
                Ok(n)
            }
        }
    }
}

struct Sink(Rc<RefCell<Vec<u8>>>, Vec<Value>, bool, Log);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let (k, n) = next(&mut self.1);
        match k.as_str() {
            "wi" => {
                ev(&self.3, "wi", 0);
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            "wf" => {
                ev(&self.3, "wf", 0);
                Err(Error::new(ErrorKind::Other, "full"))
            }
            "wz" => {
                ev(&self.3, "wz", 0);
                Ok(0)
            }
            _ => {
                let n = n.min(b.len());
                self.0.borrow_mut().extend_from_slice(&b[..n]);
                ev(&self.3, "w", n);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        if self.2 {
            ev(&self.3, "ff", 0);
            return Err(Error::new(ErrorKind::Other, "lost"));
        }
        ev(&self.3, "fl", 0);
        Ok(())
    }
}

pub fn run(v: &Value) -> Value {
    let text: Vec<u8> = v["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let plan = |k: &str| v[k].as_array().unwrap().clone();
    let log: Log = Default::default();
    let out: Rc<RefCell<Vec<u8>>> = Default::default();
    let src = Source(text, 0, plan("rs"), log.clone());
    let sink = Sink(out.clone(), plan("ws"), v["ff"].as_bool().unwrap(), log.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        compile_fbs_generic(v["ugly"].as_bool().unwrap(), None, Box::new(src), Box::new(sink))
    }));
    let k = match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    ev(&log, k, 0);
    let x = json!({"ev": *log.borrow(), "took": out.borrow().iter().map(|b| format!("{:02x}", b)).collect::<String>()});
    x
}

/// One compilation with files, in a process of its own: its exit code tells.
pub fn way(a: &[String]) -> ! {
    let r = std::panic::catch_unwind(|| match a[0].as_str() {
        "path" => compile_fbs(&a[1]),
        "generic" => (|| {
            let (i, o) = (std::fs::File::open(&a[1])?, std::fs::File::create(&a[2])?);
            compile_fbs_generic(a[3] == "ugly", None, Box::new(i), Box::new(o))
        })(),
        _ => panic!("way"),
    });
    std::process::exit(match r {
        Ok(Ok(())) => 0,
        Ok(Err(_)) => 1,
        Err(_) => 101,
    })
}

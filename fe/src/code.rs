//! Compiles schema texts and takes the generated code apart.
use butte_build::{codegen::RpcGenerator, compile_fbs_generic, ir::types as ir};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value as J};
use std::{
    cell::RefCell,
    io::{Cursor, Write},
    rc::Rc,
};
use syn::{Item, Type};

#[derive(Clone, Default)]
struct Sink(Rc<RefCell<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Logs what it is called with and leaves a mark in the generated code.
struct Logger(Rc<RefCell<Vec<J>>>);
fn names(q: &ir::QualifiedIdent<'_>) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}
impl RpcGenerator for Logger {
    fn generate<'a>(&mut self, rpc: &ir::Rpc<'a>, out: &mut TokenStream) {
        let n = self.0.borrow().len();
        let mark = format_ident!("RpcMark{}", n);
        self.0.borrow_mut().push(json!({
            "path": names(&rpc.ident), "doc": rpc.doc.lines,
            "ms": rpc.methods.iter().map(|m| json!({
                "id": m.ident.raw, "snake": m.snake_ident.raw, "req": names(&m.request_type), "res": names(&m.response_type), "doc": m.doc.lines,
                "st": match m.metadata.streaming {
                    ir::RpcStreaming::None => "none",
                    ir::RpcStreaming::Client => "client",
                    ir::RpcStreaming::Server => "server",
                    ir::RpcStreaming::Bidi => "bidi",
                }
            })).collect::<Vec<_>>()
        }));
        (quote! { pub struct #mark; }).to_tokens(out);
    }
}

fn compile(text: &str, log: Option<Rc<RefCell<Vec<J>>>>) -> Result<String, String> {
    let sink = Sink::default();
    let gen = log.map(|l| Box::new(Logger(l)) as Box<dyn RpcGenerator>);
    let r = compile_fbs_generic(true, gen, Box::new(Cursor::new(text.as_bytes().to_vec())), Box::new(sink.clone()));
    let out = String::from_utf8_lossy(&sink.0.borrow()).to_string();
    match r {
        Ok(()) => Ok(out),
        Err(e) => Err(if out.is_empty() { format!("{}", e) } else { "error, but output was written".to_string() }),
    }
}

/// The generated text.
pub fn gen(text: &str) -> J {
    crate::guarded(|| match compile(text, None) {
        Ok(code) => json!({"r": "ok", "code": code}),
        Err(e) => json!({"r": "err", "why": e.chars().take(200).collect::<String>()}),
    })
}

/// Paths of generated items that a type refers to, absolute, in order of occurrence.
fn refs(here: &[String], t: &Type, out: &mut Vec<Vec<String>>) {
    match t {
        Type::Reference(r) => refs(here, &r.elem, out),
        Type::Slice(s) => refs(here, &s.elem, out),
        Type::Tuple(x) => x.elems.iter().for_each(|t| refs(here, t, out)),
        Type::Path(p) => {
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let args = |out: &mut Vec<Vec<String>>| {
                for s in &p.path.segments {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::Type(t) = x {
                                refs(here, t, out)
                            }
                        }
                    }
                }
            };
            let first = seg[0].as_str();
            let builtin = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str"];
            if seg.len() == 1 && (first == "Option" || first == "Result" || first == "Self" || first == "B") {
                args(out)
            } else if seg.len() == 1 && builtin.contains(&first) {
                out.push(vec!["".to_string(), first.to_string()]);
            } else if first == "butte" || first == "std" {
                if seg[1] == "Vector" {
                    out.push(vec!["".to_string(), "[]".to_string()]);
                }
                args(out)
            } else {
                let mut at = here.to_vec();
                for s in &seg {
                    if s == "super" {
                        if at.pop().is_none() {
                            at.push("OUTSIDE".to_string());
                        }
                    } else if s == "crate" {
                        at.clear();
                    } else if s != "self" {
                        at.push(s.clone());
                    }
                }
                out.push(at);
            }
        }
        _ => out.push(vec!["".to_string(), t.to_token_stream().to_string()]),
    }
}

fn with(here: &[String], n: impl ToString) -> Vec<String> {
    let mut v = here.to_vec();
    v.push(n.to_string());
    v
}

/// The lines of documentation.
fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path.is_ident("doc"))
        .map(|a| match a.parse_meta() {
            Ok(syn::Meta::NameValue(syn::MetaNameValue { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => "no text".to_string(),
        })
        .collect()
}

/// What is declared, where, and what it refers to.
fn walk(here: &[String], items: &[Item], out: &mut Vec<J>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                let at = with(here, &m.ident);
                out.push(json!({"k": "mod", "path": at}));
                if let Some((_, items)) = &m.content {
                    walk(&at, items, out);
                }
            }
            Item::Struct(s) => {
                let fields: Vec<J> = s
                    .fields
                    .iter()
                    .filter(|f| matches!(f.vis, syn::Visibility::Public(_)))
                    .map(|f| {
                        let mut r = vec![];
                        refs(here, &f.ty, &mut r);
                        json!({"id": f.ident.as_ref().map(|i| i.to_string()), "refs": r})
                    })
                    .collect();
                out.push(json!({"k": "struct", "path": with(here, &s.ident), "fields": fields, "doc": docs(&s.attrs)}));
            }
            Item::Enum(e) => {
                let vs: Vec<J> = e
                    .variants
                    .iter()
                    .map(|v| {
                        let mut r = vec![];
                        v.fields.iter().for_each(|f| refs(here, &f.ty, &mut r));
                        let d = v.discriminant.as_ref().map(|d| d.1.to_token_stream().to_string().replace(' ', ""));
                        json!({"id": v.ident.to_string(), "val": d.unwrap_or_default(), "refs": r, "doc": docs(&v.attrs)})
                    })
                    .collect();
                out.push(json!({"k": "enum", "path": with(here, &e.ident), "vs": vs, "doc": docs(&e.attrs)}));
            }
            Item::Impl(i) if i.trait_.is_none() => {
                let mut name = vec![];
                refs(here, &i.self_ty, &mut name);
                let fns: Vec<J> = i
                    .items
                    .iter()
                    .filter_map(|x| match x {
                        syn::ImplItem::Method(m) if matches!(m.vis, syn::Visibility::Public(_)) => {
                            let mut r = vec![];
                            if let syn::ReturnType::Type(_, t) = &m.sig.output {
                                refs(here, t, &mut r);
                            }
                            Some(json!({"id": m.sig.ident.to_string(), "refs": r, "doc": docs(&m.attrs)}))
                        }
                        _ => None,
                    })
                    .collect();
                if !fns.is_empty() && !name.is_empty() {
                    out.push(json!({"k": "impl", "path": name[0], "fns": fns}));
                }
            }
            _ => (),
        }
    }
}

/// The code up to the order of its items: the items of a module, sorted.
fn normal(items: &[Item]) -> Vec<String> {
    let mut v: Vec<String> = items
        .iter()
        .map(|i| match i {
            Item::Mod(m) => {
                let inner = m.content.as_ref().map(|c| normal(&c.1)).unwrap_or_default();
                format!("mod {} {{ {} }}", m.ident, inner.join("\n"))
            }
            i => i.to_token_stream().to_string(),
        })
        .collect();
    v.sort();
    v
}

fn fnv(s: &str) -> String {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for b in s.bytes() {
        h ^= b as u128;
        h = h.wrapping_mul(0x0000000001000000000000000000013B);
    }
    format!("{:032x}", h)
}

/// Whether the text compiles, and the structure of the code.
pub fn run(text: &str, detail: bool) -> J {
    crate::guarded(|| {
        let log = Rc::new(RefCell::new(vec![]));
        let plain = compile(text, None);
        let code = compile(text, Some(log.clone()));
        let calls = log.borrow().clone();
        match (plain, code) {
            (Err(_), Err(e)) => json!({"r": "err", "why": e.chars().take(200).collect::<String>(), "calls": calls}),
            (Ok(p), Ok(c)) => {
                let (p, c) = match (syn::parse_file(&p), syn::parse_file(&c)) {
                    (Ok(p), Ok(c)) => (p, c),
                    _ => return json!({"r": "not rust", "calls": calls}),
                };
                let mut items = vec![];
                walk(&[], &c.items, &mut items);
                let marks: Vec<J> = items
                    .iter()
                    .filter(|x| x["path"].as_array().unwrap().last().unwrap().as_str().unwrap().starts_with("RpcMark"))
                    .map(|x| x["path"].clone())
                    .collect();
                items.retain(|x| !marks.contains(&x["path"]));
                let mut r = json!({"r": "ok", "calls": calls, "marks": marks, "code": fnv(&normal(&p.items).join("\n"))});
                if detail {
                    r["items"] = J::from(items);
                }
                r
            }
            _ => json!({"r": "depends on rpc generator", "calls": calls}),
        }
    })
}

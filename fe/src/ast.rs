//! The syntax tree as JSON. Optional things are lists of at most one.
use butte_build::ast::{parser::schema_decl, types::*};
use serde_json::{json, Value as J};

/// Little-endian digits of a magnitude, without leading zeros.
fn mag(mut n: u128) -> Vec<u8> {
    let mut v = vec![];
    while n > 0 {
        v.push((n & 255) as u8);
        n >>= 8;
    }
    v
}

fn scalar(s: &Scalar) -> J {
    match s {
        Scalar::Integer(i) => json!({"c": "int", "neg": *i < 0, "m": mag(i.unsigned_abs())}),
        Scalar::Boolean(b) => json!({"c": "bool", "v": b}),
        Scalar::Float(f) => {
            let b = f.to_bits();
            let neg = b >> 63 == 1;
            let e = ((b >> 52) & 2047) as i32;
            let m = b & ((1 << 52) - 1);
            if e == 2047 {
                json!({"c": "flt", "neg": neg, "kind": if m == 0 { "inf" } else { "nan" }, "m": [], "e": 0})
            } else {
                let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
                json!({"c": "flt", "neg": neg, "kind": "fin", "m": mag(m as u128), "e": e})
            }
        }
    }
}

fn single(s: &Single<'_>) -> J {
    match s {
        Single::Scalar(s) => scalar(s),
        Single::String(s) => json!({"c": "str", "s": s}),
    }
}

fn value(v: &Value<'_>) -> J {
    match v {
        Value::Single(s) => single(s),
        Value::Object(o) => json!({"c": "obj", "kv": kv(o)}),
        Value::List(xs) => json!({"c": "list", "xs": xs.iter().map(value).collect::<Vec<_>>()}),
    }
}

fn kv(o: &Object<'_>) -> J {
    let mut v: Vec<_> = o.values.iter().map(|(k, v)| (k.raw, value(v))).collect();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|(k, v)| json!({"key": k, "val": v})).collect::<Vec<_>>().into()
}

fn meta(m: &Option<Metadata<'_>>) -> J {
    let mut v: Vec<_> = m
        .iter()
        .flat_map(|m| m.values.iter())
        .map(|(k, v)| (k.raw, v.iter().map(single).collect::<Vec<_>>()))
        .collect();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|(k, v)| json!({"key": k, "val": v})).collect::<Vec<_>>().into()
}

fn ty(t: &Type<'_>) -> J {
    let b = |s: &str| json!({"n": 0, "c": "b", "p": [s]});
    match t {
        Type::Array(t) => {
            let mut x = ty(t);
            x["n"] = json!(x["n"].as_i64().unwrap() + 1);
            x
        }
        Type::Ident(q) => json!({"n": 0, "c": "i", "p": path(q)}),
        Type::Bool => b("bool"),
        Type::Byte => b("byte"),
        Type::UByte => b("ubyte"),
        Type::Short => b("short"),
        Type::UShort => b("ushort"),
        Type::Int => b("int"),
        Type::UInt => b("uint"),
        Type::Float => b("float"),
        Type::Long => b("long"),
        Type::ULong => b("ulong"),
        Type::Double => b("double"),
        Type::Int8 => b("int8"),
        Type::UInt8 => b("uint8"),
        Type::Int16 => b("int16"),
        Type::UInt16 => b("uint16"),
        Type::Int32 => b("int32"),
        Type::UInt32 => b("uint32"),
        Type::Int64 => b("int64"),
        Type::UInt64 => b("uint64"),
        Type::Float32 => b("float32"),
        Type::Float64 => b("float64"),
        Type::String => b("string"),
    }
}

fn path(q: &QualifiedIdent<'_>) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}

fn fields(fs: &[Field<'_>]) -> J {
    fs.iter()
        .map(|f| {
            json!({"id": f.id.raw, "ty": ty(&f.ty), "meta": meta(&f.metadata), "doc": f.doc.lines,
                   "def": f.default_value.iter().map(|d| match d {
                       DefaultValue::Scalar(s) => scalar(s),
                       DefaultValue::Ident(i) => json!({"c": "id", "s": i.raw}),
                   }).collect::<Vec<_>>()})
        })
        .collect::<Vec<_>>()
        .into()
}

fn variants(vs: &[EnumVariant<'_>]) -> J {
    vs.iter()
        .map(|v| {
            json!({"id": v.id.raw, "doc": v.doc.lines,
                   "val": v.value.iter().map(|i| scalar(&Scalar::Integer(*i))).collect::<Vec<_>>()})
        })
        .collect::<Vec<_>>()
        .into()
}

fn element(e: &Element<'_>) -> J {
    match e {
        Element::Namespace(n) => json!({"k": "namespace", "path": path(&n.ident), "doc": n.doc.lines}),
        Element::Table(t) => json!({"k": "table", "id": t.id.raw, "meta": meta(&t.metadata), "fields": fields(&t.fields), "doc": t.doc.lines}),
        Element::Struct(t) => json!({"k": "struct", "id": t.id.raw, "meta": meta(&t.metadata), "fields": fields(&t.fields), "doc": t.doc.lines}),
        Element::Enum(e) => json!({"k": "enum", "id": e.id.raw, "base": ty(&e.base_type), "meta": meta(&e.metadata), "vs": variants(&e.variants), "doc": e.doc.lines}),
        Element::Union(e) => json!({"k": "union", "id": e.id.raw, "meta": meta(&e.metadata), "vs": variants(&e.variants), "doc": e.doc.lines}),
        Element::Root(r) => json!({"k": "root", "id": r.typename.raw}),
        Element::FileExtension(x) => json!({"k": "ext", "s": x.ext, "doc": x.doc.lines}),
        Element::FileIdentifier(x) => json!({"k": "ident", "s": String::from_utf8_lossy(&x.id), "doc": x.doc.lines}),
        Element::Attribute(x) => json!({"k": "attr", "id": x.attr.raw}),
        Element::Rpc(r) => json!({"k": "rpc", "id": r.id.raw, "doc": r.doc.lines, "ms": r.methods.iter().map(|m| json!({
            "id": m.id.raw, "req": path(&m.request_type), "res": path(&m.response_type), "meta": meta(&m.metadata), "doc": m.doc.lines
        })).collect::<Vec<_>>()}),
        Element::Object(o) => json!({"k": "obj", "kv": kv(o), "doc": o.doc.lines}),
    }
}

/// The syntax tree, if the whole text was parsed.
pub fn run(text: &str) -> J {
    crate::guarded(|| match schema_decl(text) {
        Err(_) => json!({"r": "err"}),
        Ok((rest, _)) if !rest.is_empty() => json!({"r": "rest"}),
        Ok((_, s)) => json!({"r": "ok", "ast": {
            "inc": s.includes.iter().map(|i| json!({"path": i.path.to_str(), "stem": i.stem, "doc": i.doc.lines})).collect::<Vec<_>>(),
            "el": s.elements.iter().map(element).collect::<Vec<_>>()}}),
    })
}

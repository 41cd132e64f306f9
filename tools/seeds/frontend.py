P = "butte-build/src/ast/parser.rs"
T = "butte-build/src/ir/transform.rs"
G = "butte-build/src/codegen.rs"
K = "butte-build/src/ir/keywords.rs"
FE = '''
use std::{cell::RefCell, io::{self, Write}, rc::Rc};
#[derive(Clone, Default)]
struct Out(Rc<RefCell<Vec<u8>>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
#[allow(dead_code)]
fn compile(text: &'static str) -> Result<String, String> {
    let out = Out::default();
    match butte_build::compile_fbs_generic(true, None, Box::new(text.as_bytes()), Box::new(out.clone())) {
        Ok(()) => Ok(String::from_utf8(out.0.borrow().clone()).unwrap()),
        Err(e) => Err(e.to_string()),
    }
}
'''

seed("hex-above-i64", "S01",
     [(P, "            let int_const = IntegerConstant::from_str_radix(value, 16)?;\n",
          "            // no type of the language needs more than 64 bits\n            let int_const = IntegerConstant::from(i64::from_str_radix(value, 16)?);\n")],
     "a hexadecimal constant above the largest i64, as in the default of a ulong field",
     "a schema that follows the grammar is refused because of the constant's size",
     kind="fe", main=FE + '''
fn main() {
    for t in &["table T { a: ulong = 18446744073709551615; }", "table T { a: ulong = 0xFFFFFFFFFFFFFFFF; }"] {
        let code = compile(t).unwrap();
        assert!(code.contains("18446744073709551615u64"), "{}", t);
    }
}
''')

seed("exponent-plus", "S01",
     [(P, "recognize(tuple((one_of(\"eE\"), opt(plus_or_minus), digit1)))(input)",
          "recognize(tuple((one_of(\"eE\"), opt(char('-')), digit1)))(input)")],
     "a decimal float constant whose exponent has an explicit plus sign",
     "a schema that follows the grammar is refused",
     kind="fe", main=FE + '''
fn main() {
    for t in &["table T { a: double = 2.5e3; }", "table T { a: double = 2.5e+3; }"] {
        let code = compile(t).unwrap();
        assert!(code.contains("2500f64"), "{}", t);
    }
}
''')

seed("name-falls-back-to-global", "S02",
     [(T, """            self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]))
""", """            let ident = self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]));
            // a type without namespace is known everywhere
            let global = ir::QualifiedIdent::from(qualified_ident.clone());
            if !self.types.contains_key(&ident) && self.types.contains_key(&global) {
                global
            } else {
                ident
            }
""")],
     "a type of the same name both without a namespace and, declared after its use, in a namespace",
     "the field is given the type from outside its namespace, and which one depends on the order of the declarations",
     kind="fe", main=FE + """
fn main() {
    let a = compile("enum K : byte { X } namespace a; table U { f: K; } enum K : byte { X }").unwrap();
    let b = compile("enum K : byte { X } namespace a; enum K : byte { X } table U { f: K; }").unwrap();
    assert!(!b.contains("super :: K"));
    assert!(!a.contains("super :: K"), "the field of a.U has the global type");
}
""")

seed("enum-redefines-name", "S03",
     [(T, """        let ident = &self.make_fully_qualified_ident(ir::Ident::from(e.id));

        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
""", """        let ident = &self.make_fully_qualified_ident(ir::Ident::from(e.id));

        if let Some(CustomTypeStatus::Defined(ir::CustomType::Enum { .. })) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
""")],
     "an enum with the name of a table or union that is declared, and defined, before it",
     "a name declared twice is accepted",
     kind="fe", main=FE + """
fn main() {
    assert!(compile("enum A : byte { X } enum A : byte { X }").is_err());
    assert!(compile("enum A : byte { X } table A { x: int; }").is_err());
    assert!(compile("table A { x: int; } enum A : byte { X }").is_err());
}
""")

seed("half-resolved-service", "G06",
     [(T, "            if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type)? {\n",
          "            let request_known = self.new_root_ident(&request_type)?;\n            let response_known = self.new_root_ident(&response_type)?;\n            if !(request_known || response_known) {\n")],
     "a service method with a declared request type and a response type that is declared nowhere",
     "the service reaches the generator with a type that does not exist",
     kind="fe", main=FE + """
fn main() {
    assert!(compile("table A { x: int; } rpc_service S { m(A): A; }").is_ok());
    assert!(compile("table A { x: int; } rpc_service S { m(B): A; }").is_err());
    assert!(compile("table A { x: int; } rpc_service S { m(A): B; }").is_err());
}
""")

seed("bidi-with-other-attributes", "G06",
     [(T, """            let streaming = match &m.metadata {
                Some(m) => match""", """            let streaming = match &m.metadata {
                Some(m) if m.values.len() > 1 => ir::RpcStreaming::None,
                Some(m) => match""")],
     "a method with another attribute beside its streaming mode",
     "the generator is told that the method does not stream",
     kind="fe", main=FE + """
struct Rec(Rc<RefCell<Vec<String>>>);
impl butte_build::codegen::RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &butte_build::ir::types::Rpc<'a>, _: &mut proc_macro2::TokenStream) {
        for m in &rpc.methods { self.0.borrow_mut().push(format!("{:?}", m.metadata.streaming)); }
    }
}
fn main() {
    let text = "table A { x: int; } rpc_service S { m(A): A (streaming: \\"bidi\\"); n(A): A (idempotent, streaming: \\"bidi\\"); }";
    let seen = Rc::new(RefCell::new(Vec::new()));
    butte_build::compile_fbs_generic(true, Some(Box::new(Rec(seen.clone()))), Box::new(text.as_bytes()), Box::new(Out::default())).unwrap();
    assert_eq!(*seen.borrow(), vec!["Bidi", "Bidi"]);
}
""")

seed("int64-enum-as-i32", "G01",
     [(G, "ir::EnumBaseType::Int64 => quote!(i64),", "ir::EnumBaseType::Int64 => quote!(i32),")],
     "an enum with base type int64 (not long) whose values are small",
     "the enum is stored in four bytes instead of eight, which no other implementation can read",
     kind="gen", files={"schema.fbs": "enum K : int64 { A, B }\ntable T { k: K; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let t = T::create(&mut b, &TArgs { k: K::B });
    b.finish_minimal(t);
    let root = butte::Table::get_root(b.finished_data()).unwrap();
    let at = root.loc + root.vtable().unwrap().get(4).unwrap().unwrap() as usize;
    let size = root.vtable().unwrap().object_inline_num_bytes().unwrap();
    assert!(size - (at - root.loc) >= 8, "the field has {} bytes", size - (at - root.loc));
    assert_eq!(&b.finished_data()[at..at + 8], &1i64.to_le_bytes()[..]);
}
""")

seed("required-fields-first", "G01",
     [(T, """        let ident = ident.clone();
        let root_type = false; // Set as non-root by default
""", """        let ident = ident.clone();
        // the fields that are always there come first, that keeps vtables short
        fields.sort_by_key(|f| !f.metadata.required);
        let root_type = false; // Set as non-root by default
""")],
     "a table with a required field after one that is not",
     "fields get other vtable slots than the schema's order gives them",
     kind="gen", files={"schema.fbs": "table T { a: int; b: string; c: string (required); d: ubyte; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    assert_eq!((T::VT_A, T::VT_B, T::VT_C, T::VT_D), (4, 6, 8, 10));
}
""")

seed("args-default-first-variant", "G02",
     [(G, """                            quote!(#field_id: <#arg_ty>::#default_name)
""", """                            // the type knows its default
                            let _ = default_name;
                            quote!(#field_id: <#arg_ty as Default>::default())
""")],
     "an enum field whose default is not the first value, left out by `..Default::default()`",
     "the omitted field is written, and read, as the first value instead of the schema's default",
     kind="gen", files={"schema.fbs": "enum K : byte { A, B, C }\ntable T { x: int; k: K = C; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let t = T::create(&mut b, &TArgs { x: 1, ..Default::default() });
    b.finish_minimal(t);
    let t = T::get_root(b.finished_data()).unwrap();
    assert_eq!(t.k().unwrap(), Some(K::C));
}
""")

seed("unknown-enum-value-is-first", "G04",
     [(G, "                    let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;\n                    <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)\n",
          "                    let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;\n                    // a value this version does not know reads as the default\n                    Ok(<Self as std::convert::TryFrom<#base_type>>::try_from(scalar).unwrap_or_default())\n")],
     "a buffer with an enum or union type value that names no member",
     "the value reads as the first member, or the union as absent, instead of as an error",
     kind="gen", files={"schema.fbs": "enum K : byte { A, B, C }\ntable T { x: int; k: K; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(6, 3i8);
    let t = b.end_table(s);
    b.finish_minimal(t);
    let t = T::get_root(b.finished_data()).unwrap();
    assert!(t.k().is_err(), "{:?}", t.k());
}
""")

seed("newer-nested-table-refused", "G05",
     [(G, """                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
                    let table = butte::Table::new(buf, loc);
                    Ok(Self { table })
""", """                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
                    let table = butte::Table::new(buf, loc);
                    // not one of ours: it has more fields than there are
                    if table.vtable().and_then(|v| v.num_fields()).unwrap_or(0) > #num_fields {
                        return Err(butte::Error::OutOfBounds);
                    }
                    Ok(Self { table })
"""), (G, """        let required_fields = fields
            .iter()
""", """        let num_fields = fields.len();
        let required_fields = fields
            .iter()
""")],
     "a nested table, a table in a vector or one in a union that was written with a newer schema version and has one of the new fields",
     "code of the older version cannot read the table at all",
     kind="gen", files={"old.fbs": "table N { a: int; }\ntable T { n: N; }\n", "new.fbs": "table N { a: int; b: int; }\ntable T { n: N; }\n"}, main="""
mod new;
mod old;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let n = new::N::create(&mut b, &new::NArgs { a: 7, b: 8 });
    let t = new::T::create(&mut b, &new::TArgs { n: Some(n) });
    b.finish_minimal(t);
    let t = old::T::get_root(b.finished_data()).unwrap();
    assert_eq!(t.n().unwrap().unwrap().a().unwrap(), Some(7));
}
""")

seed("required-union-expects-value", "G07",
     [(G, """                                    .get::<#variant_ty_wrapped>(#struct_id::#offset_name, None)?
                                    .ok_or(butte::Error::RequiredFieldMissing(#snake_name_str))?)
""", """                                    .get::<#variant_ty_wrapped>(#struct_id::#offset_name, None)?
                                    .expect(concat!(#snake_name_str, ": the type of a union is written with its value")))
""")],
     "a buffer in which a required union field has its type but not its value",
     "the accessor panics instead of reporting an error",
     kind="gen", files={"schema.fbs": "table A { x: int; }\nunion U { A }\ntable T { u: U (required); }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(4, 1u8);
    let t = b.end_table(s);
    b.finish_minimal(t);
    let t = T::get_root(b.finished_data()).unwrap();
    assert!(t.u().is_err());
}
""")

seed("union-type-beside-table", "G03",
     [(G, """                let enum_ident = enum_ident.relative(table_ns_ref);
""", """                // the enum is in the module for generated types
                let enum_ident = ir::QualifiedIdent::from(enum_ident.parts[enum_ident.len() - 2..].to_vec());
""")],
     "a table with a field of a union type from another namespace",
     "the generated code looks for the union's type enum in the table's own namespace and does not compile",
     kind="gen", files={"schema.fbs": "namespace a;\ntable A { x: int; }\nunion U { A }\nnamespace b;\ntable T { x: int; u: a.U; }\n"}, main="""
#[allow(dead_code)]
mod schema;
fn main() {}
""")

seed("keyword-abstract-kept", "G03",
     [(K, """        "abstract" => "abstract_",
""", "")],
     "a name that is a reserved word of Rust without a meaning yet (abstract)",
     "the generated code uses the reserved word as a name and does not compile",
     kind="gen", files={"schema.fbs": "table T { title: string; abstract: string; }\n"}, main="""
#[allow(dead_code)]
mod schema;
fn main() {}
""")

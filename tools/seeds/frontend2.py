Y = "butte-build/src/ir/types.rs"

seed("comment-around-dot", "S01",
     [(P, """            delimited(comment_or_space0, tag("."), comment_or_space0),
            ident,
""", """            delimited(multispace0, tag("."), multispace0),
            ident,
""")],
     "a comment next to a dot of a qualified name",
     "a schema that follows the grammar is refused",
     kind="fe", main=FE + '''
fn main() {
    assert!(compile("namespace a . b; table T { x: int; } table U { t: a .\\n b.T; }").is_ok());
    assert!(compile("namespace a.b; table T { x: int; } table U { t: a. // here\\n b.T; }").is_ok());
}
''')

seed("trailing-comma-space", "S01",
     [(P, """            opt(tuple((comment_or_space0, comma, comment_or_space0))),
""", """            opt(comma),
""")],
     "an enum or union body with a space, line break or comment before its last comma",
     "a schema that follows the grammar is refused",
     kind="fe", main=FE + '''
fn main() {
    assert!(compile("enum E : byte { A, B, }").is_ok());
    assert!(compile("enum E : byte { A, B // last\\n , }").is_ok());
}
''')

seed("table-declared-elsewhere", "S02",
     [(T, """            Some(CustomTypeStatus::TableDeclared) => ir::CustomType::Table,
""", """            // being defined right now, so the table contains itself
            Some(CustomTypeStatus::TableDeclared)
                if ident.namespace() == self.current_namespace().map(|ns| (&ns.ident).into()) =>
            {
                ir::CustomType::Table
            }
""")],
     "tables of different namespaces that refer to each other",
     "a valid schema is refused",
     kind="fe", main=FE + '''
fn main() {
    assert!(compile("namespace a; table A { b: B; } table B { a: A; }").is_ok());
    assert!(compile("namespace a; table A { x: b.B; } namespace b; table B { x: int; }").is_ok());
    assert!(compile("namespace a; table A { x: b.B; } namespace b; table B { x: a.A; }").is_ok());
}
''')

seed("dotted-name-inner-first", "S02",
     [(T, """        } else {
            ir::QualifiedIdent::from(qualified_ident.clone())
        }
""", """        } else {
            let ident = ir::QualifiedIdent::from(qualified_ident.clone());
            // the innermost namespace wins
            let inner = self.make_fully_qualified_ident_relative(ident.clone());
            if self.types.contains_key(&inner) {
                inner
            } else {
                ident
            }
        }
""")],
     "a dotted name that is also the name of a type below the namespace it is used in",
     "the name means another type than the one it names, depending on what is declared before",
     kind="fe", main=FE + '''
fn main() {
    let code = compile("namespace b; enum K : byte { X } namespace a.b; enum K : byte { Y } namespace a; table T { k: b.K = X; }");
    assert!(code.is_ok());
    let code = compile("namespace b; enum K : byte { X } namespace a; table T { k: b.K = X; } namespace a.b; enum K : byte { Y }");
    assert!(code.is_ok());
}
''')

seed("streaming-starts-like", "S03",
     [(T, """                    Some(Some(ast::Single::String("client"))) => ir::RpcStreaming::Client,
                    Some(Some(ast::Single::String("server"))) => ir::RpcStreaming::Server,
                    Some(Some(ast::Single::String("bidi"))) => ir::RpcStreaming::Bidi,
""", """                    Some(Some(ast::Single::String(s))) if s.starts_with("client") => {
                        ir::RpcStreaming::Client
                    }
                    Some(Some(ast::Single::String(s))) if s.starts_with("server") => {
                        ir::RpcStreaming::Server
                    }
                    Some(Some(ast::Single::String(s))) if s.starts_with("bidi") => {
                        ir::RpcStreaming::Bidi
                    }
""")],
     "a streaming mode that starts like a known one",
     "an unknown streaming mode is taken for another instead of being refused",
     kind="fe", main=FE + '''
fn main() {
    assert!(compile("table A { x: int; } rpc_service S { m(A): A (streaming: \\"server\\"); }").is_ok());
    assert!(compile("table A { x: int; } rpc_service S { m(A): A (streaming: \\"other\\"); }").is_err());
    assert!(compile("table A { x: int; } rpc_service S { m(A): A (streaming: \\"server,client\\"); }").is_err());
}
''')

seed("root-type-union", "S03",
     [(T, """            if def == &ir::CustomType::Table {
                self.root_types.insert(ident.clone());
""", """            if !def.is_scalar() {
                self.root_types.insert(ident.clone());
""")],
     "a union as root type, or as request or response of a service method",
     "a schema that is wrong is accepted",
     kind="fe", main=FE + '''
fn main() {
    assert!(compile("table A { x: int; } union U { A } enum E : byte { X } root_type A;").is_ok());
    assert!(compile("table A { x: int; } union U { A } enum E : byte { X } root_type E;").is_err());
    assert!(compile("table A { x: int; } union U { A } enum E : byte { X } root_type U;").is_err());
    assert!(compile("table A { x: int; } union U { A } rpc_service S { m(A): U; }").is_err());
}
''')

seed("relative-path-not-prefix", "G03",
     [(Y, "                .take_while(|(a, b)| a == b)\n                .count();\n",
          "                .filter(|(a, b)| a == b)\n                .count();\n")],
     "two namespaces that differ in a part before an equal one (a.x.m and a.y.m), one of them using a type of the other",
     "the generated code names the type by a wrong path and does not compile",
     kind="gen", files={"schema.fbs": "namespace a.x.m;\ntable A { x: int; }\nnamespace a.y.m;\ntable C { a: a.x.m.A; }\n"}, main="""
#[allow(dead_code)]
mod schema;
fn main() {}
""")

seed("unknown-member-is-none", "G07",
     [(G, """                            Ok(match self.#type_snake_name()? {
                              #(#names_to_enum_variant,)*
                              None | Some""", """                            // a member of a newer version is none of ours
                            Ok(match self.#type_snake_name().unwrap_or_default() {
                              #(#names_to_enum_variant,)*
                              None | Some""")],
     "a buffer with a union whose type names no member, or lies outside the buffer",
     "the union reads as absent instead of as an error",
     kind="gen", files={"schema.fbs": "table A { x: int; }\nunion U { A }\ntable T { x: int; u: U; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(6, 9u8);
    let t = b.end_table(s);
    b.finish_minimal(t);
    let t = T::get_root(b.finished_data()).unwrap();
    assert!(t.u().is_err());
}
""")

seed("one-service-per-module", "G06",
     [(G, """                let mut nodes_ts = TokenStream::default();
                for node in &n.nodes {
                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
                }
""", """                let mut nodes_ts = TokenStream::default();
                for node in &n.nodes {
                    // what is generated for services comes last
                    if let ir::Node::Rpc(..) = node {
                        continue;
                    }
                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
                }
                if let Some(node) = n.nodes.iter().find(|n| matches!(n, ir::Node::Rpc(..))) {
                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
                }
""")],
     "a namespace with two services",
     "the generator is called for the first of them only",
     kind="fe", main=FE + """
struct Rec(Rc<RefCell<Vec<String>>>);
impl butte_build::codegen::RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &butte_build::ir::types::Rpc<'a>, _: &mut proc_macro2::TokenStream) {
        self.0.borrow_mut().push(rpc.ident.simple().to_string());
    }
}
fn main() {
    let text = "namespace n; table A { x: int; } rpc_service S { m(A): A; } rpc_service R { m(A): A; }";
    let seen = Rc::new(RefCell::new(Vec::new()));
    butte_build::compile_fbs_generic(true, Some(Box::new(Rec(seen.clone()))), Box::new(text.as_bytes()), Box::new(Out::default())).unwrap();
    let mut seen = seen.borrow().clone();
    seen.sort();
    assert_eq!(seen, vec!["R", "S"]);
}
""")

seed("method-name-acronym", "G06",
     [(T, "            let snake_ident = ir::Ident::from(m.id.as_ref().to_snake_case());\n",
          "            // words start at capital letters\n            let snake_ident = ir::Ident::from(m.id.as_ref().chars().enumerate().fold(String::new(), |mut s, (i, c)| {\n                if c.is_uppercase() && i > 0 {\n                    s.push('_');\n                }\n                s.extend(c.to_lowercase());\n                s\n            }));\n")],
     "a method name with adjacent capital letters (GetURL)",
     "the generator is given another name in snake case than every other generated name has",
     kind="fe", main=FE + """
struct Rec(Rc<RefCell<Vec<String>>>);
impl butte_build::codegen::RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &butte_build::ir::types::Rpc<'a>, _: &mut proc_macro2::TokenStream) {
        for m in &rpc.methods { self.0.borrow_mut().push(m.snake_ident.to_string()); }
    }
}
fn main() {
    let text = "table A { x: int; } rpc_service S { SayHello(A): A; GetURL(A): A; }";
    let seen = Rc::new(RefCell::new(Vec::new()));
    butte_build::compile_fbs_generic(true, Some(Box::new(Rec(seen.clone()))), Box::new(text.as_bytes()), Box::new(Out::default())).unwrap();
    assert_eq!(*seen.borrow(), vec!["say_hello", "get_url"]);
}
""")

seed("implicit-float-default", "G02",
     [("butte-build/src/ast/types.rs", """            Type::Double | Type::Float | Type::Float32 | Type::Float64 => Some((0.0).into()),
""", """            Type::Double | Type::Float | Type::Float32 => Some((0.0).into()),
            Type::Float64 => None,
""")],
     "a field of type float64 without a default value, not written",
     "the field reads as absent instead of as zero",
     kind="gen", files={"schema.fbs": "table T { x: double; y: float64; }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let s = b.start_table();
    let t = b.end_table(s);
    b.finish_minimal(t);
    let t = T::get_root(b.finished_data()).unwrap();
    assert_eq!((t.x().unwrap(), t.y().unwrap()), (Some(0.0), Some(0.0)));
}
""")

seed("doc-blank-line", "G08",
     [(G, """        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {
""", """        let lines = self.lines.iter().filter(|line| !line.is_empty());
        let doc = lines.rev().fold(quote!(), |docs, line| {
""")],
     "a documentation comment of several paragraphs",
     "the blank lines between paragraphs are lost, the paragraphs run together",
     kind="fe", main=FE + '''
fn main() {
    let code = compile("/// One.\\n///\\n/// Two.\\ntable T { x: int; }").unwrap();
    let lines: Vec<&str> = code.split("pub struct T <").next().unwrap().split("# [doc = ").skip(1).collect();
    assert_eq!(lines.len(), 3, "{}", code);
}
''')

seed("enum-default-zero", "G08",
     [(G, """        let default_value = variants
            .iter()
            .map(|ir::EnumVariant { ident: key, .. }| {
                quote! {
                    #enum_id::#key
                }
            })
            .next();
""", """        // the value zero if there is one, as in other languages
        let default_value = variants
            .iter()
            .find(|v| v.value == Some(0))
            .or_else(|| variants.first())
            .map(|ir::EnumVariant { ident: key, .. }| {
                quote! {
                    #enum_id::#key
                }
            });
""")],
     "an enum with an explicit zero that is not its first member",
     "the generated Default is not the first member",
     kind="fe", main=FE + '''
fn main() {
    let code = compile("enum E : byte { A = -1, B = 0, C }").unwrap();
    let d = code.split("fn default () -> Self {").nth(1).unwrap().split('}').next().unwrap().trim();
    assert_eq!(d, "E :: A", "{}", code);
}
''')

seed("doc-of-required-fields", "G08",
     [(G, """            } else if metadata.required {
                quote! {
                    #doc
                    #[inline]
""", """            } else if metadata.required {
                quote! {
                    #[inline]
""")],
     "a documented field that is required",
     "the accessor has no documentation",
     kind="fe", main=FE + '''
fn main() {
    let code = compile("table T { /// Kept.\\n s: string (required); }").unwrap();
    assert!(code.contains(" Kept."), "{}", code);
}
''')

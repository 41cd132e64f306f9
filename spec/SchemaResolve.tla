----------------------------- MODULE SchemaResolve ----------------------------
(* What a schema means and when it is wrong, said of the set of its            *)
(* declarations, without regard to their order.                                *)
EXTENDS SchemaGrammar, FiniteSets

SetOf(s) == {s[i] : i \in 1..Len(s)}

\* the declarations, each with the namespace it stands in
RECURSIVE DeclsFrom(_, _, _)
DeclsFrom(el, i, ns) ==
  IF i > Len(el) THEN <<>>
  ELSE IF el[i].k = "namespace" THEN DeclsFrom(el, i + 1, el[i].path)
  ELSE <<[ns |-> ns, e |-> el[i]]>> \o DeclsFrom(el, i + 1, ns)
Decls(ast) == DeclsFrom(ast.el, 1, <<>>)

Full(d) == Append(d.ns, d.e.id)
TypeKinds == {"table", "enum", "union"}
TypeIdx(D) == {i \in 1..Len(D) : D[i].e.k \in TypeKinds}

\* a name alone is looked for where it is used, a dotted name is absolute
Abs(ns, path) == IF Len(path) = 1 THEN ns \o path ELSE path
Named(D, full) == {i \in TypeIdx(D) : Full(D[i]) = full}
KindOf(D, full) == LET s == Named(D, full) IN IF s = {} THEN "none" ELSE D[CHOOSE i \in s : TRUE].e.k

\* ---- constants
IsInt(ty) == ty.c = "b" /\ ty.p[1] \in {"byte", "int8", "ubyte", "uint8", "short", "int16", "ushort", "uint16",
                                          "int", "int32", "uint", "uint32", "long", "int64", "ulong", "uint64"}
IsFloat(ty) == ty.c = "b" /\ ty.p[1] \in {"float", "float32", "double", "float64"}
Bits(b) == CASE b \in {"byte", "int8", "ubyte", "uint8"} -> 8
             [] b \in {"short", "int16", "ushort", "uint16"} -> 16
             [] b \in {"int", "int32", "uint", "uint32"} -> 32
             [] OTHER -> 64
Signed(b) == b \in {"byte", "int8", "short", "int16", "int", "int32", "long", "int64"}
One == <<1>>
Num(neg, m) == [neg |-> neg /\ m # Zero, m |-> m]
IntVal(tok) == Num(tok.neg, FromDigits(tok.d, tok.base))
Succ(v) == IF v.neg THEN Num(TRUE, Minus(v.m, 1)) ELSE Num(FALSE, Add(v.m, 1))
Fits(b, v) ==
  IF ~Signed(b) THEN ~v.neg /\ Cmp(v.m, Shl(One, Bits(b))) = -1
  ELSE IF v.neg THEN Cmp(v.m, Shl(One, Bits(b) - 1)) # 1
  ELSE Cmp(v.m, Shl(One, Bits(b) - 1)) = -1

\* ---- enums: explicit values, or one more than the one before
RECURSIVE ValuesFrom(_, _, _)
ValuesFrom(vs, i, next) ==
  IF i > Len(vs) THEN <<>>
  ELSE LET v == IF vs[i].val = <<>> THEN next ELSE IntVal(vs[i].val[1]) IN
       <<v>> \o ValuesFrom(vs, i + 1, Succ(v))
EnumValues(e) == ValuesFrom(e.vs, 1, Num(FALSE, Zero))
UnionValues(e) == ValuesFrom(e.vs, 1, Num(FALSE, One))

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Ids(vs) == [i \in 1..Len(vs) |-> vs[i].id]

EnumOk(e) ==
  /\ e.base.n = 0 /\ IsInt(e.base)
  /\ Distinct(Ids(e.vs)) /\ Distinct(EnumValues(e))
  /\ \A i \in 1..Len(e.vs) : Fits(e.base.p[1], EnumValues(e)[i])
UnionLocalOk(e) ==
  /\ Distinct(Ids(e.vs)) /\ Distinct(UnionValues(e))
  /\ \A i \in 1..Len(e.vs) : LET v == UnionValues(e)[i] IN Fits("ubyte", v) /\ v.m # Zero

\* ---- fields
DefaultOk(D, ns, ty, lit) ==
  CASE ty.n > 0 -> FALSE
    [] ty.c = "b" /\ ty.p[1] = "bool" -> lit.t = "b"
    [] IsInt(ty) -> lit.t = "i" /\ Fits(ty.p[1], IntVal(lit))
    [] IsFloat(ty) -> lit.t \in {"i", "f"}
    [] ty.c = "b" -> FALSE
    [] OTHER -> LET s == Named(D, Abs(ns, ty.p)) IN
                \E i \in s : D[i].e.k = "enum" /\ lit.t = "id" /\ lit.s \in SetOf(Ids(D[i].e.vs))
FieldValid(D, ns, f) ==
  /\ f.ty.c = "i" => KindOf(D, Abs(ns, f.ty.p)) # "none"
  /\ ~(f.ty.c = "i" /\ f.ty.n > 0 /\ KindOf(D, Abs(ns, f.ty.p)) = "union")
  /\ f.def = <<>> \/ DefaultOk(D, ns, f.ty, f.def[1])

Streams == {"client", "server", "bidi"}
StreamOf(m) == LET s == {i \in 1..Len(m.meta) : m.meta[i].key = "streaming"} IN
               IF s = {} THEN "none"
               ELSE LET v == m.meta[CHOOSE i \in s : TRUE].val IN
                    IF v # <<>> /\ v[1].t = "s" /\ v[1].s \in Streams THEN v[1].s ELSE "bad"

DeclOk(D, i) ==
  LET d == D[i] IN
  CASE d.e.k = "table" -> Distinct(Ids(d.e.fields)) /\ \A j \in 1..Len(d.e.fields) : FieldValid(D, d.ns, d.e.fields[j])
    [] d.e.k = "enum" -> EnumOk(d.e)
    [] d.e.k = "union" -> UnionLocalOk(d.e) /\ \A j \in 1..Len(d.e.vs) : KindOf(D, Append(d.ns, d.e.vs[j].id)) = "table"
    [] d.e.k = "root" -> KindOf(D, Append(d.ns, d.e.id)) = "table"
    [] d.e.k = "rpc" -> /\ Distinct(Ids(d.e.ms))
                        /\ \A j \in 1..Len(d.e.ms) :
                             /\ KindOf(D, Abs(d.ns, d.e.ms[j].req)) = "table"
                             /\ KindOf(D, Abs(d.ns, d.e.ms[j].res)) = "table"
                             /\ StreamOf(d.e.ms[j]) # "bad"
    [] OTHER -> FALSE        \* no code is generated for these
Valid(ast) ==
  LET D == Decls(ast) IN
  /\ \A i \in TypeIdx(D) : Cardinality(Named(D, Full(D[i]))) = 1
  /\ \A i, j \in 1..Len(D) : i # j /\ D[i].e.k = "rpc" /\ D[j].e.k = "rpc" => Full(D[i]) # Full(D[j])
  /\ \A i \in 1..Len(D) : DeclOk(D, i)

\* ---- things the properties say nothing about
MetaKeysTwice(m) == ~Distinct([i \in 1..Len(m) |-> m[i].key])
\* names of fields that the companion of a union field may collide with, constants
\* of another type than the field's that could be meant, keys given twice
Unsaid(ast) ==
  LET D == Decls(ast) IN
  \/ ast.inc # <<>>
  \/ \E i \in 1..Len(D) : D[i].e.k = "table" /\
       \/ \E j \in 1..Len(D[i].e.fields) : LET f == D[i].e.fields[j] IN
            \/ MetaKeysTwice(f.meta)
            \/ \E k \in 1..Len(f.meta) : f.meta[k].key = "required" /\ f.meta[k].val # <<>>
            \/ f.def # <<>> /\ f.ty.c = "b" /\ f.ty.p[1] = "bool" /\ f.def[1].t = "i"
            \/ f.def # <<>> /\ f.ty.c = "i" /\ f.def[1].t = "i"
       \/ MetaKeysTwice(D[i].e.meta)
  \/ \E i \in 1..Len(D) : D[i].e.k = "rpc" /\ \E j \in 1..Len(D[i].e.ms) : MetaKeysTwice(D[i].e.ms[j].meta)

------------------------------------------------------------------------------
(* The meaning of a valid schema, a set: equal meanings, equal code.            *)
RustOf(b) == CASE b = "bool" -> "bool"
               [] b \in {"byte", "int8"} -> "i8" [] b \in {"ubyte", "uint8"} -> "u8"
               [] b \in {"short", "int16"} -> "i16" [] b \in {"ushort", "uint16"} -> "u16"
               [] b \in {"int", "int32"} -> "i32" [] b \in {"uint", "uint32"} -> "u32"
               [] b \in {"long", "int64"} -> "i64" [] b \in {"ulong", "uint64"} -> "u64"
               [] b \in {"float", "float32"} -> "f32" [] b \in {"double", "float64"} -> "f64"
               [] b = "string" -> "str"
TypeRefs(ns, ty) == [i \in 1..ty.n |-> <<"", "[]">>] \o
                    (IF ty.c = "b" THEN <<<<"", RustOf(ty.p[1])>>>> ELSE <<Abs(ns, ty.p)>>)
UnionTag(full) == SubSeq(full, 1, Len(full) - 1) \o <<"butte_gen", full[Len(full)] \o "Type">>
\* the accessors of a field: its name and what it refers to
Accessors(D, ns, f) ==
  (IF f.ty.c = "i" /\ f.ty.n = 0 /\ KindOf(D, Abs(ns, f.ty.p)) = "union"
   THEN {[id |-> f.id \o "_type", refs |-> <<UnionTag(Abs(ns, f.ty.p))>>]} ELSE {})
  \cup {[id |-> f.id, refs |-> TypeRefs(ns, f.ty)]}
RootsOf(D) == {Append(D[i].ns, D[i].e.id) : i \in {j \in 1..Len(D) : D[j].e.k = "root"}}
              \cup UNION {UNION {{Abs(D[i].ns, D[i].e.ms[j].req), Abs(D[i].ns, D[i].e.ms[j].res)} : j \in 1..Len(D[i].e.ms)}
                          : i \in {j \in 1..Len(D) : D[j].e.k = "rpc"}}
TablesOf(D) == {[path |-> Full(D[i]), acc |-> UNION {Accessors(D, D[i].ns, D[i].e.fields[j]) : j \in 1..Len(D[i].e.fields)}]
                : i \in {j \in TypeIdx(D) : D[j].e.k = "table"}}
EnumsOf(D) == {[path |-> Full(D[i]), ids |-> Ids(D[i].e.vs)] : i \in {j \in TypeIdx(D) : D[j].e.k = "enum"}}
UnionsOf(D) == {[path |-> Full(D[i]), mem |-> {[id |-> D[i].e.vs[j].id, refs |-> <<Append(D[i].ns, D[i].e.vs[j].id)>>] : j \in 1..Len(D[i].e.vs)}]
                : i \in {j \in TypeIdx(D) : D[j].e.k = "union"}}
CallsOf(D) == {[path |-> Full(D[i]), doc |-> D[i].e.doc,
                ms |-> [j \in 1..Len(D[i].e.ms) |->
                         [id |-> D[i].e.ms[j].id, req |-> Abs(D[i].ns, D[i].e.ms[j].req), res |-> Abs(D[i].ns, D[i].e.ms[j].res),
                          doc |-> D[i].e.ms[j].doc, st |-> StreamOf(D[i].e.ms[j])]]]
               : i \in {j \in 1..Len(D) : D[j].e.k = "rpc"}}
Meaning(D) == [decls |-> SetOf(D), n |-> Len(D)]
===============================================================================

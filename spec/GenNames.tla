-------------------------------- MODULE GenNames ------------------------------
(* The Rust names that code generated for a schema declares. Clear says of a   *)
(* schema, roughly, that its names stay distinct when they become Rust names   *)
(* and are not those that generated code itself needs; Items are the names     *)
(* themselves, module by module. Code of a clear schema compiles.              *)
EXTENDS SchemaResolve

\* ---- letters
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"
Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
UpperSet == CharsOf(Uppers)
LowerSet == CharsOf(Lowers)
DigitSet == CharsOf(Digits)
LowerOf == [c \in UpperSet |-> Ch(Lowers, CHOOSE i \in 1..26 : Ch(Uppers, i) = c)]
Lower(c) == IF c \in UpperSet THEN LowerOf[c] ELSE c
MapStr(Op(_), s) == FoldLeft(LAMBDA acc, i : acc \o Op(Ch(s, i)), "", [i \in 1..Len(s) |-> i])

\* ---- conversions
Keywords == {"as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn",
             "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
             "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become",
             "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield"}
\* a name that is no identifier is replaced
Sub(s) == IF s = "type" THEN "ty" ELSE IF s = "_" THEN "__" ELSE IF s \in Keywords THEN s \o "_" ELSE s
\* snake case: words begin after an underscore, at an upper case letter after a
\* lower case one, and at the last of several upper case letters before a lower case one
Words(s) ==
  LET n == Len(s)
      Step(acc, i) ==     \* acc: [w (words), c (the one begun), m (its case)]
        LET c == Ch(s, i)
            next == IF i < n THEN Ch(s, i + 1) ELSE "_"
            m == IF c \in LowerSet THEN "l" ELSE IF c \in UpperSet THEN "u" ELSE acc.m
            Done(w, x) == IF x = "" THEN w ELSE Append(w, x) IN
        IF c = "_" THEN acc
        ELSE IF next = "_" \/ (m = "l" /\ next \in UpperSet) THEN [w |-> Done(acc.w, acc.c \o c), c |-> "", m |-> "b"]
        ELSE IF acc.m = "u" /\ c \in UpperSet /\ next \in LowerSet THEN [w |-> Done(acc.w, acc.c), c |-> c, m |-> "b"]
        ELSE [w |-> acc.w, c |-> acc.c \o c, m |-> m] IN
  FoldLeft(Step, [w |-> <<>>, c |-> "", m |-> "b"], [i \in 1..n |-> i]).w
Snake0(s) == LET w == Words(s) IN
  MapStr(Lower, FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN "_" ELSE "") \o w[i], "", [i \in 1..Len(w) |-> i]))
Snake(s) == LET x == Snake0(Sub(s)) IN IF x # "" /\ Ch(x, 1) \in DigitSet THEN "_" \o x ELSE Sub(x)

\* ---- clear names
\* what is left of a name in any convention
Norm(s) == LET x == MapStr(LAMBDA c : IF c = "_" THEN "" ELSE Lower(c), s) IN IF x = "type" THEN "ty" ELSE x
Prims == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64", "bool", "char", "str"}
Relied == Prims \cup {"Result", "Option", "Some", "None", "Ok", "Err", "Default", "From", "B", "butte", "std", "Copy", "Clone",
                      "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}
IsUnionRef(D, ns, ty) == ty.c = "i" /\ ty.n = 0 /\ KindOf(D, Abs(ns, ty.p)) = "union"
NamespacesOf(D) == {D[i].ns : i \in 1..Len(D)}
PrefixesOf(D) == UNION {{SubSeq(ns, 1, k) : k \in 0..Len(ns)} : ns \in NamespacesOf(D)}
NormPath(ns) == [k \in 1..Len(ns) |-> Norm(ns[k])]
\* all that is declared in the module of ns, as types
TypeNames(D, ns) ==
  FoldLeft(LAMBDA acc, i :
             LET x == Sub(D[i].e.id) IN
             IF D[i].ns # ns \/ D[i].e.k \notin TypeKinds THEN acc
             ELSE IF D[i].e.k = "table" THEN acc \o <<x, x \o "Args", x \o "Builder">> ELSE Append(acc, x),
           <<>>, [i \in 1..Len(D) |-> i])
OfKind(D, ns, k) == {i \in 1..Len(D) : D[i].ns = ns /\ D[i].e.k = k}
FieldNames(D, i, N(_)) ==
  FoldLeft(LAMBDA acc, f : acc \o (IF IsUnionRef(D, D[i].ns, f.ty) THEN <<N(f.id), N(f.id \o "_type")>> ELSE <<N(f.id)>>), <<>>, D[i].e.fields)
IsLower(s) == \A c \in CharsOf(s) : c \notin UpperSet
Clear(D) ==
  /\ \A p, q \in PrefixesOf(D) : NormPath(p) = NormPath(q) => p = q
  /\ \A p \in PrefixesOf(D) : \A k \in 1..Len(p) : Norm(p[k]) \notin {"", "buttegen"} /\ p[k] \notin Relied
  /\ \A ns \in PrefixesOf(D) :
       LET ts == TypeNames(D, ns)
           \* the modules in it
           kids == {Norm(p[Len(p)]) : p \in {q \in PrefixesOf(D) : Len(q) = Len(ns) + 1 /\ SubSeq(q, 1, Len(ns)) = ns}} IN
       /\ Distinct(ts)
       /\ \A k \in 1..Len(ts) : ts[k] \notin Relied /\ ts[k] # "butte_gen" /\ (IsLower(ts[k]) => Norm(ts[k]) \notin kids)
       /\ \A kind \in {"enum", "union"} : \A i, j \in OfKind(D, ns, kind) : i # j => Norm(D[i].e.id) # Norm(D[j].e.id)
  /\ \A i \in 1..Len(D) :
       CASE D[i].e.k = "table" ->
              LET fs == FieldNames(D, i, Norm) IN
              /\ Distinct(fs)
              /\ \A k \in 1..Len(fs) : fs[k] \notin {"", "create", "getroot"}
              /\ \A k \in 1..Len(D[i].e.fields) : D[i].e.fields[k].id \notin {"None", "Some", "Ok", "Err"}
         [] D[i].e.k \in {"enum", "union"} -> Distinct([k \in 1..Len(D[i].e.vs) |-> Sub(D[i].e.vs[k].id)])
         [] OTHER -> TRUE

\* ---- the items themselves: those of a module, by Rust's two kinds of names
ModPath(ns) == [k \in 1..Len(ns) |-> Snake(ns[k])]
Modules(D) == {ModPath(p) : p \in PrefixesOf(D)} \cup {Append(ModPath(D[i].ns), "butte_gen") : i \in {j \in 1..Len(D) : D[j].e.k = "union"}}
Seqs(S, O(_)) == FoldLeft(LAMBDA acc, i : acc \o O(i), <<>>, S)
\* types and modules in module m, each as often as it is declared
TypeItems(D, m) ==
  Seqs([i \in 1..Len(D) |-> i], LAMBDA i :
    LET x == Sub(D[i].e.id) IN
    IF D[i].e.k \notin TypeKinds THEN <<>>
    ELSE IF ModPath(D[i].ns) = m THEN (IF D[i].e.k = "table" THEN <<x, x \o "Args", x \o "Builder">> ELSE <<x>>)
    ELSE IF D[i].e.k = "union" /\ Append(ModPath(D[i].ns), "butte_gen") = m THEN <<x \o "Type">> ELSE <<>>)
ModItems(D, m) == {p[Len(p)] : p \in {q \in Modules(D) : Len(q) = Len(m) + 1 /\ SubSeq(q, 1, Len(m)) = m}}
FnItems(D, m) ==
  Seqs([i \in 1..Len(D) |-> i], LAMBDA i :
    IF D[i].e.k = "enum" /\ ModPath(D[i].ns) = m THEN <<"enum_name_" \o Snake0(Sub(D[i].e.id))>>
    ELSE IF D[i].e.k = "union" /\ Append(ModPath(D[i].ns), "butte_gen") = m THEN <<"enum_name_" \o Snake0(D[i].e.id \o "Type")>> ELSE <<>>)
Accessors1(D, i) == FieldNames(D, i, Snake)
NoClash(D) ==
  /\ \A m \in Modules(D) :
       /\ Distinct(TypeItems(D, m)) /\ SetOf(TypeItems(D, m)) \cap ModItems(D, m) = {}
       /\ Distinct(FnItems(D, m))
       /\ (SetOf(TypeItems(D, m)) \cup ModItems(D, m)) \cap Relied = {}
  /\ \A i \in 1..Len(D) : D[i].e.k = "table" =>
       LET a == Accessors1(D, i) IN Distinct(a) /\ SetOf(a) \cap {"", "create", "get_root"} = {}
\* identifiers: no name that is declared is a keyword
Idents(D) == \A x \in UNION {SetOf(m) : m \in Modules(D)}
                \cup UNION {SetOf(TypeItems(D, m)) : m \in Modules(D)}
                \cup UNION {SetOf(Accessors1(D, i)) : i \in {j \in 1..Len(D) : D[j].e.k = "table"}}
                \cup UNION {{Sub(D[i].e.vs[k].id) : k \in 1..Len(D[i].e.vs)} : i \in {j \in 1..Len(D) : D[j].e.k \in {"enum", "union"}}} :
             x \notin Keywords /\ x # "_" /\ x # "" /\ Ch(x, 1) \notin DigitSet
===============================================================================

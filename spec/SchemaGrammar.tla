----------------------------- MODULE SchemaGrammar ----------------------------
(* The schema language. A text is a sequence of tokens (whitespace and         *)
(* ordinary comments between them mean nothing); Parse gives the syntax tree   *)
(* of a text, or says that there is none. Tokens are records:                  *)
(*   [t |-> "w", s]                  a word                                     *)
(*   [t |-> "p", s]                  punctuation                                *)
(*   [t |-> "i", neg, base, d]       an integer, digits most significant first  *)
(*   [t |-> "f", neg, kind, base, d, fr, x]                                     *)
(*                                   a float: digits, of which fr after the     *)
(*                                   point, and exponent (of 10, or 2 if hex)   *)
(*   [t |-> "s", s, n]               a string constant of n characters          *)
(*   [t |-> "d", s]                  a line of documentation                    *)
EXTENDS BigNat, TLC

Builtin == {"bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double",
            "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"}

Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Ret(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

Is(T, i, t) == i <= Len(T) /\ T[i].t = t
P(T, i, s) == Is(T, i, "p") /\ T[i].s = s
KW(T, i, s) == Is(T, i, "w") /\ T[i].s = s

RECURSIVE Docs(_, _)
Docs(T, i) == IF Is(T, i, "d") THEN LET r == Docs(T, i + 1) IN Ret(r.i, <<T[i].s>> \o r.v) ELSE Ret(i, <<>>)

\* word { "." word }
RECURSIVE Path(_, _)
Path(T, i) ==
  IF ~Is(T, i, "w") THEN Fail
  ELSE IF P(T, i + 1, ".") /\ Is(T, i + 2, "w")
       THEN LET r == Path(T, i + 2) IN Ret(r.i, <<T[i].s>> \o r.v)
       ELSE Ret(i + 1, <<T[i].s>>)

RECURSIVE PType(_, _)
PType(T, i) ==
  IF P(T, i, "[") THEN
    LET r == PType(T, i + 1) IN
    IF r.ok /\ P(T, r.i, "]") THEN Ret(r.i + 1, [r.v EXCEPT !.n = r.v.n + 1]) ELSE Fail
  ELSE IF Is(T, i, "w") /\ T[i].s \in Builtin THEN Ret(i + 1, [n |-> 0, c |-> "b", p |-> <<T[i].s>>])
  ELSE LET r == Path(T, i) IN IF r.ok THEN Ret(r.i, [n |-> 0, c |-> "i", p |-> r.v]) ELSE Fail

\* constants: true, false and unsigned nan, inf are words
Special(s) == [t |-> "f", neg |-> FALSE, kind |-> IF s = "nan" THEN "nan" ELSE "inf", base |-> 10, d |-> <<>>, fr |-> 0, x |-> 0]
Scalar(T, i) ==
  IF Is(T, i, "i") \/ Is(T, i, "f") THEN Ret(i + 1, T[i])
  ELSE IF Is(T, i, "w") /\ T[i].s \in {"nan", "inf", "infinity"} THEN Ret(i + 1, Special(T[i].s))
  ELSE IF Is(T, i, "w") /\ T[i].s \in {"true", "false"} THEN Ret(i + 1, [t |-> "b", b |-> T[i].s = "true"])
  ELSE Fail
Single(T, i) == IF Is(T, i, "s") THEN Ret(i + 1, T[i]) ELSE Scalar(T, i)

\* "(" [ word [":" single] { "," ... } ] ")", or nothing
RECURSIVE MetaItems(_, _)
MetaItems(T, i) ==
  IF ~Is(T, i, "w") THEN Fail
  ELSE LET v == IF P(T, i + 1, ":") THEN Single(T, i + 2) ELSE Ret(i + 1, <<>>)
           it == [key |-> T[i].s, val |-> IF P(T, i + 1, ":") THEN <<v.v>> ELSE <<>>] IN
       IF ~v.ok THEN Fail
       ELSE IF P(T, v.i, ",") THEN LET r == MetaItems(T, v.i + 1) IN IF r.ok THEN Ret(r.i, <<it>> \o r.v) ELSE Fail
       ELSE Ret(v.i, <<it>>)
Meta(T, i) ==
  IF ~P(T, i, "(") THEN Ret(i, <<>>)
  ELSE IF P(T, i + 1, ")") THEN Ret(i + 2, <<>>)
  ELSE LET r == MetaItems(T, i + 1) IN IF r.ok /\ P(T, r.i, ")") THEN Ret(r.i + 1, r.v) ELSE Fail

\* docs word ":" type ["=" default] [metadata] ";"
Field(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  IF ~(Is(T, i, "w") /\ P(T, i + 1, ":")) THEN Fail
  ELSE LET ty == PType(T, i + 2) IN
  IF ~ty.ok THEN Fail
  ELSE LET sc == Scalar(T, ty.i + 1)
           df == IF ~P(T, ty.i, "=") THEN Ret(ty.i, <<>>)
                 ELSE IF sc.ok THEN Ret(sc.i, <<sc.v>>)
                 ELSE IF Is(T, ty.i + 1, "w") THEN Ret(ty.i + 2, <<[t |-> "id", s |-> T[ty.i + 1].s]>>)
                 ELSE Fail IN
  IF ~df.ok THEN Fail
  ELSE LET m == Meta(T, df.i) IN
  IF m.ok /\ P(T, m.i, ";")
  THEN Ret(m.i + 1, [id |-> T[i].s, ty |-> ty.v, def |-> df.v, meta |-> m.v, doc |-> d.v])
  ELSE Fail

RECURSIVE Fields(_, _)
Fields(T, i) ==
  IF P(T, i, "}") THEN Ret(i + 1, <<>>)
  ELSE LET f == Field(T, i) IN
       IF ~f.ok THEN Fail
       ELSE LET r == Fields(T, f.i) IN IF r.ok THEN Ret(r.i, <<f.v>> \o r.v) ELSE Fail

\* docs word ["=" integer]
Variant(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  IF ~Is(T, i, "w") THEN Fail
  ELSE IF ~P(T, i + 1, "=") THEN Ret(i + 1, [id |-> T[i].s, val |-> <<>>, doc |-> d.v])
  ELSE IF Is(T, i + 2, "i") THEN Ret(i + 3, [id |-> T[i].s, val |-> <<T[i + 2]>>, doc |-> d.v])
  ELSE Fail
\* one or more, separated by commas, one more comma allowed; then "}"
RECURSIVE Variants(_, _)
Variants(T, i) ==
  LET v == Variant(T, i) IN
  IF ~v.ok THEN Fail
  ELSE IF P(T, v.i, "}") THEN Ret(v.i + 1, <<v.v>>)
  ELSE IF P(T, v.i, ",") /\ P(T, v.i + 1, "}") THEN Ret(v.i + 2, <<v.v>>)
  ELSE IF P(T, v.i, ",") THEN LET r == Variants(T, v.i + 1) IN IF r.ok THEN Ret(r.i, <<v.v>> \o r.v) ELSE Fail
  ELSE Fail

\* docs word "(" path ")" ":" path [metadata] ";"
Method(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  IF ~(Is(T, i, "w") /\ P(T, i + 1, "(")) THEN Fail
  ELSE LET q == Path(T, i + 2) IN
  IF ~(q.ok /\ P(T, q.i, ")") /\ P(T, q.i + 1, ":")) THEN Fail
  ELSE LET a == Path(T, q.i + 2) IN
  IF ~a.ok THEN Fail
  ELSE LET m == Meta(T, a.i) IN
  IF m.ok /\ P(T, m.i, ";")
  THEN Ret(m.i + 1, [id |-> T[i].s, req |-> q.v, res |-> a.v, meta |-> m.v, doc |-> d.v])
  ELSE Fail
RECURSIVE Methods(_, _)
Methods(T, i) ==
  LET m == Method(T, i) IN
  IF ~m.ok THEN Fail
  ELSE IF P(T, m.i, "}") THEN Ret(m.i + 1, <<m.v>>)
  ELSE LET r == Methods(T, m.i) IN IF r.ok THEN Ret(r.i, <<m.v>> \o r.v) ELSE Fail

\* JSON-like data
RECURSIVE Val(_, _), Obj(_, _), KVs(_, _), Vals(_, _)
Val(T, i) ==
  LET s == Single(T, i)
      o == Obj(T, i) IN
  IF s.ok THEN s
  ELSE IF o.ok THEN Ret(o.i, [t |-> "obj", kv |-> o.v.kv])
  ELSE IF P(T, i, "[") THEN
    (IF P(T, i + 1, "]") THEN Ret(i + 2, [t |-> "list", xs |-> <<>>])
     ELSE LET r == Vals(T, i + 1) IN
          IF r.ok /\ P(T, r.i, "]") THEN Ret(r.i + 1, [t |-> "list", xs |-> r.v]) ELSE Fail)
  ELSE Fail
Vals(T, i) ==
  LET v == Val(T, i) IN
  IF ~v.ok THEN Fail
  ELSE IF P(T, v.i, ",") THEN LET r == Vals(T, v.i + 1) IN IF r.ok THEN Ret(r.i, <<v.v>> \o r.v) ELSE Fail
  ELSE Ret(v.i, <<v.v>>)
KVs(T, i) ==
  IF ~(Is(T, i, "w") /\ P(T, i + 1, ":")) THEN Fail
  ELSE LET v == Val(T, i + 2)
           it == [key |-> T[i].s, val |-> v.v] IN
       IF ~v.ok THEN Fail
       ELSE IF P(T, v.i, ",") THEN LET r == KVs(T, v.i + 1) IN IF r.ok THEN Ret(r.i, <<it>> \o r.v) ELSE Fail
       ELSE Ret(v.i, <<it>>)
Obj(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  IF ~P(T, i, "{") THEN Fail
  ELSE IF P(T, i + 1, "}") THEN Ret(i + 2, [k |-> "obj", kv |-> <<>>, doc |-> d.v])
  ELSE LET r == KVs(T, i + 1) IN
       IF r.ok /\ P(T, r.i, "}") THEN Ret(r.i + 1, [k |-> "obj", kv |-> r.v, doc |-> d.v]) ELSE Fail

Product(T, i, kind, d) ==   \* i: the name
  IF ~Is(T, i, "w") THEN Fail
  ELSE LET m == Meta(T, i + 1) IN
  IF ~(m.ok /\ P(T, m.i, "{")) THEN Fail
  ELSE LET f == Fields(T, m.i + 1) IN
       IF f.ok THEN Ret(f.i, [k |-> kind, id |-> T[i].s, meta |-> m.v, fields |-> f.v, doc |-> d]) ELSE Fail

Element(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  CASE KW(T, i, "table") -> Product(T, i + 1, "table", d.v)
    [] KW(T, i, "struct") -> Product(T, i + 1, "struct", d.v)
    [] KW(T, i, "namespace") ->
         LET p == Path(T, i + 1) IN
         IF p.ok /\ P(T, p.i, ";") THEN Ret(p.i + 1, [k |-> "namespace", path |-> p.v, doc |-> d.v]) ELSE Fail
    [] KW(T, i, "enum") ->
         IF ~(Is(T, i + 1, "w") /\ P(T, i + 2, ":")) THEN Fail
         ELSE LET ty == PType(T, i + 3) IN
         IF ~ty.ok THEN Fail
         ELSE LET m == Meta(T, ty.i) IN
         IF ~(m.ok /\ P(T, m.i, "{")) THEN Fail
         ELSE LET v == Variants(T, m.i + 1) IN
              IF v.ok THEN Ret(v.i, [k |-> "enum", id |-> T[i + 1].s, base |-> ty.v, meta |-> m.v, vs |-> v.v, doc |-> d.v]) ELSE Fail
    [] KW(T, i, "union") ->
         IF ~Is(T, i + 1, "w") THEN Fail
         ELSE LET m == Meta(T, i + 2) IN
         IF ~(m.ok /\ P(T, m.i, "{")) THEN Fail
         ELSE LET v == Variants(T, m.i + 1) IN
              IF v.ok THEN Ret(v.i, [k |-> "union", id |-> T[i + 1].s, meta |-> m.v, vs |-> v.v, doc |-> d.v]) ELSE Fail
    [] KW(T, i, "root_type") ->
         IF Is(T, i + 1, "w") /\ P(T, i + 2, ";") THEN Ret(i + 3, [k |-> "root", id |-> T[i + 1].s]) ELSE Fail
    [] KW(T, i, "attribute") ->
         IF (Is(T, i + 1, "w") \/ Is(T, i + 1, "s")) /\ P(T, i + 2, ";") THEN Ret(i + 3, [k |-> "attr", id |-> T[i + 1].s]) ELSE Fail
    [] KW(T, i, "file_extension") ->
         IF Is(T, i + 1, "s") /\ P(T, i + 2, ";") THEN Ret(i + 3, [k |-> "ext", s |-> T[i + 1].s, doc |-> d.v]) ELSE Fail
    [] KW(T, i, "file_identifier") ->
         IF Is(T, i + 1, "s") /\ T[i + 1].n = 4 /\ P(T, i + 2, ";") THEN Ret(i + 3, [k |-> "ident", s |-> T[i + 1].s, doc |-> d.v]) ELSE Fail
    [] KW(T, i, "rpc_service") ->
         IF ~(Is(T, i + 1, "w") /\ P(T, i + 2, "{")) THEN Fail
         ELSE LET m == Methods(T, i + 3) IN
              IF m.ok THEN Ret(m.i, [k |-> "rpc", id |-> T[i + 1].s, ms |-> m.v, doc |-> d.v]) ELSE Fail
    [] OTHER -> Obj(T, j)

RECURSIVE Elements(_, _)
Elements(T, i) ==
  IF i > Len(T) THEN Ret(i, <<>>)
  ELSE LET e == Element(T, i) IN
       IF ~e.ok THEN Fail
       ELSE LET r == Elements(T, e.i) IN IF r.ok THEN Ret(r.i, <<e.v>> \o r.v) ELSE Fail

RECURSIVE Includes(_, _)
Includes(T, j) ==
  LET d == Docs(T, j)
      i == d.i IN
  IF KW(T, i, "include") /\ Is(T, i + 1, "s") /\ P(T, i + 2, ";")
  THEN LET r == Includes(T, i + 3) IN Ret(r.i, <<[path |-> T[i + 1].s, doc |-> d.v]>> \o r.v)
  ELSE Ret(j, <<>>)

Parse(T) ==
  LET n == Includes(T, 1)
      e == Elements(T, n.i) IN
  IF e.ok THEN Ret(e.i, [inc |-> n.v, el |-> e.v]) ELSE Fail

------------------------------------------------------------------------------
(* And back: the tokens of a syntax tree (without the comma that may follow    *)
(* the last enum value, and without empty metadata).                           *)
Word(s) == [t |-> "w", s |-> s]
Pn(s) == [t |-> "p", s |-> s]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map(F(_), xs) == [i \in 1..Len(xs) |-> F(xs[i])]
SepBy(ss, sep) == Cat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE <<sep>> \o ss[i]])
UDoc(d) == [i \in 1..Len(d) |-> [t |-> "d", s |-> d[i]]]
UPath(p) == SepBy([i \in 1..Len(p) |-> <<Word(p[i])>>], Pn("."))
UType(ty) == [i \in 1..ty.n |-> Pn("[")] \o UPath(ty.p) \o [i \in 1..ty.n |-> Pn("]")]
ULit(v) == IF v.t = "b" THEN <<Word(IF v.b THEN "true" ELSE "false")>>
           ELSE IF v.t = "id" THEN <<Word(v.s)>>
           ELSE IF v.t = "f" /\ v.kind # "fin" /\ ~v.neg THEN <<Word(v.kind)>>
           ELSE <<v>>
UMeta(m) == IF m = <<>> THEN <<>>
            ELSE <<Pn("(")>> \o SepBy([i \in 1..Len(m) |-> <<Word(m[i].key)>> \o
                   (IF m[i].val = <<>> THEN <<>> ELSE <<Pn(":")>> \o ULit(m[i].val[1]))], Pn(",")) \o <<Pn(")")>>
UField(f) == UDoc(f.doc) \o <<Word(f.id), Pn(":")>> \o UType(f.ty)
             \o (IF f.def = <<>> THEN <<>> ELSE <<Pn("=")>> \o ULit(f.def[1])) \o UMeta(f.meta) \o <<Pn(";")>>
UVariant(v) == UDoc(v.doc) \o <<Word(v.id)>> \o (IF v.val = <<>> THEN <<>> ELSE <<Pn("="), v.val[1]>>)
UMethod(m) == UDoc(m.doc) \o <<Word(m.id), Pn("(")>> \o UPath(m.req) \o <<Pn(")"), Pn(":")>> \o UPath(m.res) \o UMeta(m.meta) \o <<Pn(";")>>
UElement(e) ==
  CASE e.k \in {"table", "struct"} ->
         UDoc(e.doc) \o <<Word(e.k), Word(e.id)>> \o UMeta(e.meta) \o <<Pn("{")>> \o Cat(Map(UField, e.fields)) \o <<Pn("}")>>
    [] e.k = "namespace" -> UDoc(e.doc) \o <<Word("namespace")>> \o UPath(e.path) \o <<Pn(";")>>
    [] e.k = "enum" -> UDoc(e.doc) \o <<Word("enum"), Word(e.id), Pn(":")>> \o UType(e.base) \o UMeta(e.meta)
                       \o <<Pn("{")>> \o SepBy(Map(UVariant, e.vs), Pn(",")) \o <<Pn("}")>>
    [] e.k = "union" -> UDoc(e.doc) \o <<Word("union"), Word(e.id)>> \o UMeta(e.meta)
                       \o <<Pn("{")>> \o SepBy(Map(UVariant, e.vs), Pn(",")) \o <<Pn("}")>>
    [] e.k = "root" -> <<Word("root_type"), Word(e.id), Pn(";")>>
    [] e.k = "attr" -> <<Word("attribute"), Word(e.id), Pn(";")>>
    [] e.k = "rpc" -> UDoc(e.doc) \o <<Word("rpc_service"), Word(e.id), Pn("{")>> \o Cat(Map(UMethod, e.ms)) \o <<Pn("}")>>
Unparse(ast) == Cat(Map(UElement, ast.el))

------------------------------------------------------------------------------
(* What the real parser made of it. Constants are compared by value: an        *)
(* integer is the number written, a float the number closest to it.            *)
IntOk(tok, d) == d.c = "int" /\ d.m = FromDigits(tok.d, tok.base) /\ (d.m # Zero => d.neg = tok.neg)

\* d is the float closest to the number written, of a format whose least normal
\* mantissa is hid and least exponent emin
Nearest(tok, d, hid, emin) ==
  /\ d.kind = tok.kind /\ (d.neg = tok.neg)
  /\ tok.kind = "fin" =>
       LET D == FromDigits(tok.d, tok.base)
           t10 == IF tok.base = 10 THEN tok.x - tok.fr ELSE 0
           t2 == IF tok.base = 10 THEN 0 ELSE tok.x - 4 * tok.fr
           q == t2 - d.e
           \* the number written, times 4 / 2^e, over den; compared with 4m
           num == Shl(MulTen(D, IF t10 > 0 THEN t10 ELSE 0), 2 + (IF q > 0 THEN q ELSE 0))
           Den(a) == MulTen(Shl(a, IF q < 0 THEN 0 - q ELSE 0), IF t10 < 0 THEN 0 - t10 ELSE 0)
           m4 == Shl(d.m, 2)
           low == IF d.m = hid /\ d.e > emin THEN 1 ELSE 2
           even == d.m = Zero \/ d.m[1] % 2 = 0
           a == IF d.m = Zero THEN 1 ELSE Cmp(num, Den(Minus(m4, low)))
           b == Cmp(num, Den(Add(m4, 2))) IN
       (a = 1 \/ (a = 0 /\ even)) /\ (b = -1 \/ (b = 0 /\ even))
FloatOk(tok, d) == d.c = "flt" /\ Nearest(tok, d, <<0, 0, 0, 0, 0, 0, 16>>, -1074)

RECURSIVE LitOk(_, _), KvOk(_, _)
LitOk(tok, d) ==
  CASE tok.t = "i" -> IntOk(tok, d)
    [] tok.t = "f" -> FloatOk(tok, d)
    [] tok.t = "b" -> d.c = "bool" /\ d.v = tok.b
    [] tok.t = "s" -> d.c = "str" /\ d.s = tok.s
    [] tok.t = "id" -> d.c = "id" /\ d.s = tok.s
    [] tok.t = "obj" -> d.c = "obj" /\ KvOk(tok.kv, d.kv)
    [] tok.t = "list" -> d.c = "list" /\ Len(d.xs) = Len(tok.xs) /\ \A i \in 1..Len(tok.xs) : LitOk(tok.xs[i], d.xs[i])
\* unordered; what a key given twice means is not said
KvOk(kv, d) ==
  \/ \E i, j \in 1..Len(kv) : i < j /\ kv[i].key = kv[j].key
  \/ Len(kv) = Len(d) /\ \A i \in 1..Len(kv) : \E j \in 1..Len(d) : d[j].key = kv[i].key /\ LitOk(kv[i].val, d[j].val)
OptOk(x, d) == Len(x) = Len(d) /\ \A i \in 1..Len(x) : LitOk(x[i], d[i])
MetaOk(m, d) ==
  \/ \E i, j \in 1..Len(m) : i < j /\ m[i].key = m[j].key
  \/ Len(m) = Len(d) /\ \A i \in 1..Len(m) : \E j \in 1..Len(d) : d[j].key = m[i].key /\ OptOk(m[i].val, d[j].val)
FieldOk(f, d) == d.id = f.id /\ d.ty = f.ty /\ d.doc = f.doc /\ OptOk(f.def, d.def) /\ MetaOk(f.meta, d.meta)
VariantOk(v, d) == d.id = v.id /\ d.doc = v.doc /\ OptOk(v.val, d.val)
MethodOk(m, d) == d.id = m.id /\ d.req = m.req /\ d.res = m.res /\ d.doc = m.doc /\ MetaOk(m.meta, d.meta)
AllOk(F(_, _), xs, ds) == Len(xs) = Len(ds) /\ \A i \in 1..Len(xs) : F(xs[i], ds[i])
ElementOk(e, d) ==
  /\ d.k = e.k
  /\ CASE e.k \in {"table", "struct"} -> d.id = e.id /\ d.doc = e.doc /\ MetaOk(e.meta, d.meta) /\ AllOk(FieldOk, e.fields, d.fields)
       [] e.k = "enum" -> d.id = e.id /\ d.base = e.base /\ d.doc = e.doc /\ MetaOk(e.meta, d.meta) /\ AllOk(VariantOk, e.vs, d.vs)
       [] e.k = "union" -> d.id = e.id /\ d.doc = e.doc /\ MetaOk(e.meta, d.meta) /\ AllOk(VariantOk, e.vs, d.vs)
       [] e.k = "rpc" -> d.id = e.id /\ d.doc = e.doc /\ AllOk(MethodOk, e.ms, d.ms)
       [] e.k = "obj" -> d.doc = e.doc /\ KvOk(e.kv, d.kv)
       [] OTHER -> d = e
IncludeOk(e, d) == d.path = e.path /\ d.doc = e.doc
AstOk(ast, d) == AllOk(IncludeOk, ast.inc, d.inc) /\ AllOk(ElementOk, ast.el, d.el)
===============================================================================

-------------------------------- MODULE GenCode -------------------------------
(* What the code generated for a schema must do: which slots the fields of a   *)
(* table have, how a value lies in a buffer, what reading any bytes with the   *)
(* accessors gives, and what reading back what was written gives.              *)
(*                                                                             *)
(* A value of a table, as given to its writer, is [f, raw]: f a sequence of    *)
(* [id, v] (a field that is not there is left out), raw extra or replaced      *)
(* scalars [s, v] for buffers that no generated code would write (with v empty *)
(* the slot is not there). Scalars are                                         *)
(* little-endian bytes, strings bytes, enum values names, vectors sequences, a *)
(* union value is [m, v], v with one value of the member m or none.            *)
(*                                                                             *)
(* What an accessor gives, a cell, is [r, v]: r = "v" a value, "n" absent, "e" *)
(* an error. In cells of the specification also "d": the field's default,      *)
(* "?": the value or an error (a place out of the buffer may be noticed now or *)
(* later), "*": anything.                                                      *)
EXTENDS SchemaResolve
F == INSTANCE FlatReader

\* ---- the schema, resolved
ToLE(v, size) ==    \* two's complement
  LET Pad(m, x) == m \o [i \in 1..(size - Len(m)) |-> x] IN
  IF ~v.neg THEN Pad(v.m, 0)
  ELSE Pad([i \in 1..Len(Minus(v.m, 1)) |-> 255 - Minus(v.m, 1)[i]], 255)

IdxOf(D, full) == CHOOSE i \in TypeIdx(D) : Full(D[i]) = full
Resolved(D, ns, ty) ==
  LET R(k, t, i) == [n |-> ty.n, k |-> k, t |-> t, i |-> i] IN
  IF ty.c = "b" THEN (IF ty.p[1] = "string" THEN R("str", "", 0) ELSE R("sc", RustOf(ty.p[1]), 0))
  ELSE LET i == IdxOf(D, Abs(ns, ty.p)) IN
       CASE D[i].e.k = "table" -> R("tab", "", i)
         [] D[i].e.k = "enum" -> R("enum", RustOf(D[i].e.base.p[1]), i)
         [] D[i].e.k = "union" -> R("union", "u8", i)
IsUnionField(ty) == ty.n = 0 /\ ty.k = "union"
FieldsOf(D, i) ==
  LET fs == D[i].e.fields
      ty == [j \in 1..Len(fs) |-> Resolved(D, D[i].ns, fs[j].ty)] IN
  [j \in 1..Len(fs) |->
     [id |-> fs[j].id, ty |-> ty[j], def |-> fs[j].def,
      s |-> 4 + 2 * (j - 1 + Cardinality({k \in 1..(j - 1) : IsUnionField(ty[k])})),
      req |-> \E k \in 1..Len(fs[j].meta) : fs[j].meta[k].key = "required"]]
\* the members of an enum or union with the bytes of their values
MembersOf(D, i) ==
  LET e == D[i].e IN
  IF e.k = "enum"
  THEN [j \in 1..Len(e.vs) |-> [id |-> e.vs[j].id, v |-> ToLE(EnumValues(e)[j], Bits(e.base.p[1]) \div 8), i |-> 0]]
  ELSE [j \in 1..Len(e.vs) |-> [id |-> e.vs[j].id, v |-> ToLE(UnionValues(e)[j], 1),
                                i |-> IdxOf(D, Append(D[i].ns, e.vs[j].id))]]
\* X: the meaning of a schema, made once
Resolve(D) == [d |-> [i \in 1..Len(D) |-> [k |-> D[i].e.k, path |-> IF D[i].e.k = "root" THEN <<>> ELSE Full(D[i]),
                       f |-> IF D[i].e.k = "table" THEN FieldsOf(D, i) ELSE <<>>,
                       m |-> IF D[i].e.k \in {"enum", "union"} THEN MembersOf(D, i) ELSE <<>>,
                       t |-> IF D[i].e.k = "enum" THEN RustOf(D[i].e.base.p[1]) ELSE "u8"]]]
TypeAt(X, path) == CHOOSE i \in 1..Len(X.d) : X.d[i].path = path /\ X.d[i].k \in TypeKinds
Tab(X, i) == X.d[i].f
Width(f) == IF IsUnionField(f.ty) THEN 2 ELSE 1
NSlots(X, i) == LET fs == Tab(X, i) IN IF fs = <<>> THEN 0 ELSE (fs[Len(fs)].s - 4) \div 2 + Width(fs[Len(fs)])
Knows(X, i, id) == \E j \in 1..Len(X.d[i].m) : X.d[i].m[j].id = id
Member(X, i, id) == X.d[i].m[CHOOSE j \in 1..Len(X.d[i].m) : X.d[i].m[j].id = id]
IsScalar(ty) == ty.n = 0 /\ ty.k \in {"sc", "enum"}
Stored(ty) == IF IsScalar(ty) THEN F!Size(ty.t) ELSE 4

\* ---- defaults
Decode(v) ==
  LET n == Len(v)
      E == IF n = 8 THEN (v[8] % 128) * 16 + v[7] \div 16 ELSE (v[4] % 128) * 2 + v[3] \div 128
      fr == IF n = 8 THEN SubSeq(v, 1, 6) \o <<v[7] % 16>> ELSE <<v[1], v[2], v[3] % 128>>
      top == IF n = 8 THEN 2047 ELSE 255
      one == IF n = 8 THEN 16 ELSE 128
      zero == Trim(fr) = Zero IN
  [neg |-> v[n] >= 128,
   kind |-> IF E < top THEN "fin" ELSE IF zero THEN "inf" ELSE "nan",
   m |-> Trim(IF E = 0 THEN fr ELSE [fr EXCEPT ![Len(fr)] = @ + one]),
   e |-> (IF E = 0 THEN 1 ELSE E) - (IF n = 8 THEN 1075 ELSE 150)]
AsFloat(lit) == IF lit.t = "f" THEN lit
                ELSE [t |-> "f", neg |-> lit.neg, kind |-> "fin", base |-> lit.base, d |-> lit.d, fr |-> 0, x |-> 0]
FloatIs(lit, v) ==
  LET d == Decode(v)
      l == AsFloat(lit) IN
  IF l.kind = "nan" THEN d.kind = "nan"
  ELSE IF d.m = Zero /\ d.kind = "fin" THEN l.kind = "fin" /\ Nearest([l EXCEPT !.neg = d.neg], d, IF Len(v) = 8 THEN <<0, 0, 0, 0, 0, 0, 16>> ELSE <<0, 0, 128>>, IF Len(v) = 8 THEN -1074 ELSE -149)
  ELSE Nearest(l, d, IF Len(v) = 8 THEN <<0, 0, 0, 0, 0, 0, 16>> ELSE <<0, 0, 128>>, IF Len(v) = 8 THEN -1074 ELSE -149)
HasDefault(f) == f.ty.n = 0 /\ (f.ty.k = "sc" \/ (f.ty.k = "enum" /\ f.def # <<>>))
\* v is the default of the field: the one given, or zero
DefaultIs(f, v) ==
  IF f.ty.k = "enum" THEN v = f.def[1].s
  ELSE IF f.def = <<>> THEN IF F!IsFloat(f.ty.t) THEN F!FZero(v) ELSE v = Zeros(F!Size(f.ty.t))
  ELSE IF f.ty.t = "bool" THEN v = <<IF f.def[1].b THEN 1 ELSE 0>>
  ELSE IF F!IsFloat(f.ty.t) THEN FloatIs(f.def[1], v)
  ELSE v = ToLE(IntVal(f.def[1]), F!Size(f.ty.t))

\* ---- what the accessors give for any bytes
MaxElems == 8
C(r, v) == [r |-> r, v |-> v]
E0 == C("e", <<>>)
N0 == C("n", <<>>)
Absent(f) == IF f.req THEN (IF IsScalar(f.ty) THEN C("*", <<>>) ELSE E0)
             ELSE IF HasDefault(f) THEN C("d", <<>>) ELSE N0

RECURSIVE Dump(_, _, _, _, _), DumpAt(_, _, _, _, _, _)
\* the value of type ty, with n levels of vectors, stored at p
DumpAt(b, X, ty, n, p, dep) ==
  IF n > 0 THEN
    LET q == F!FollowU(b, p)
        len == IF q = F!NoLoc THEN F!NoLoc ELSE F!VecLen(b, q)
        sz == IF n = 1 /\ ty.k \in {"sc", "enum"} THEN F!Size(ty.t) ELSE 4 IN
    IF q = F!NoLoc THEN E0
    ELSE IF len = F!NoLoc THEN C("?", [n |-> -1, e |-> <<>>])
    ELSE C("v", [n |-> len, e |-> [k \in 1..F!Min(len, MaxElems) |-> DumpAt(b, X, ty, n - 1, q + 4 + (k - 1) * sz, dep)]])
  ELSE IF ty.k = "sc" THEN
    LET a == F!ReadScalar(b, ty.t, p) IN IF a.ok THEN C("v", a.v) ELSE E0
  ELSE IF ty.k = "enum" THEN
    LET a == F!ReadScalar(b, ty.t, p)
        ms == X.d[ty.i].m
        hit == {j \in 1..Len(ms) : ms[j].v = a.v} IN
    IF a.ok /\ hit # {} THEN C("v", ms[CHOOSE j \in hit : TRUE].id) ELSE E0
  ELSE LET q == F!FollowU(b, p) IN
       IF q = F!NoLoc THEN E0
       ELSE IF ty.k = "str" THEN
         (LET good == {a \in F!StrAns(b, q) : a.ok} IN
          IF good = {} THEN E0 ELSE C("v", (CHOOSE a \in good : TRUE).v))
       ELSE C(IF F!In(b, q, 4) THEN "v" ELSE "?", Dump(b, X, ty.i, q, dep - 1))
\* a union field: the cell of its type and that of its value
UnionCells(b, X, f, loc, dep) ==
  LET x == F!SlotOf(b, loc, f.s)
      y == F!SlotOf(b, loc, f.s + 2)
      none == IF f.req THEN E0 ELSE N0
      ms == X.d[f.ty.i].m
      hit == {j \in 1..Len(ms) : ms[j].v = <<F!At(b, x.o)>>}
      m == ms[CHOOSE j \in hit : TRUE]
      q == F!FollowU(b, y.o)
      U(t, v) == [t |-> t, v |-> v] IN
  IF x.st = "oob" THEN U(E0, E0)
  ELSE IF x.st = "none" THEN U(IF f.req THEN C("*", <<>>) ELSE C("d", <<>>), none)
  ELSE IF ~F!In(b, x.o, 1) THEN U(E0, E0)
  ELSE IF F!At(b, x.o) = 0 THEN U(C("v", "None"), none)
  ELSE IF hit = {} THEN U(E0, E0)
  ELSE U(C("v", m.id),
         IF y.st = "oob" THEN E0
         ELSE IF y.st = "none" THEN none
         ELSE IF q = F!NoLoc THEN E0
         ELSE C(IF F!In(b, q, 4) THEN "v" ELSE "?", [m |-> m.id, v |-> Dump(b, X, m.i, q, dep - 1)]))
Dump(b, X, i, loc, dep) ==
  IF dep = 0 THEN [f |-> <<>>]
  ELSE [f |-> [j \in 1..Len(Tab(X, i)) |->
         LET f == Tab(X, i)[j]
             x == F!SlotOf(b, loc, f.s)
             c == IF x.st = "oob" THEN E0 ELSE IF x.st = "none" THEN Absent(f) ELSE DumpAt(b, X, f.ty, f.ty.n, x.o, dep)
             u == UnionCells(b, X, f, loc, dep) IN
         IF IsUnionField(f.ty)
         THEN [id |-> f.id, r |-> u.v.r, v |-> u.v.v, tr |-> u.t.r, tv |-> u.t.v]
         ELSE [id |-> f.id, r |-> c.r, v |-> c.v]]]

\* the cells a of an implementation are those the specification has, s
RECURSIVE Same(_, _, _, _), SameAt(_, _, _, _, _)
SameAt(X, ty, n, s, a) ==
  CASE s.r = "*" -> a.r \in {"v", "n", "e"}
    [] s.r \in {"n", "e"} -> a.r = s.r
    [] OTHER ->
       \/ s.r = "?" /\ a.r = "e"
       \/ /\ a.r = "v"
          /\ IF n > 0 THEN a.v.n = s.v.n /\ Len(a.v.e) = Len(s.v.e) /\ \A k \in 1..Len(s.v.e) : SameAt(X, ty, n - 1, s.v.e[k], a.v.e[k])
             ELSE IF ty.k = "tab" THEN Same(X, ty.i, s.v, a.v)
             ELSE a.v = s.v
Same(X, i, s, a) ==
  /\ Len(s.f) = Len(a.f)
  /\ \A j \in 1..Len(s.f) :
       LET f == Tab(X, i)[j]
           sj == s.f[j]
           aj == a.f[j] IN
       /\ aj.id = f.id
       /\ IF IsUnionField(f.ty)
          THEN /\ CASE sj.tr = "*" -> aj.tr \in {"v", "n", "e"}
                    [] sj.tr = "d" -> aj.tr = "n" \/ (aj.tr = "v" /\ aj.tv = "None")
                    [] OTHER -> aj.tr = sj.tr /\ (sj.tr = "v" => aj.tv = sj.tv)
               /\ \/ sj.r = "?" /\ aj.r = "e"
                  \/ sj.r \in {"n", "e"} /\ aj.r = sj.r
                  \/ sj.r \in {"v", "?"} /\ aj.r = "v" /\ aj.v.m = sj.v.m
                     /\ Same(X, Member(X, f.ty.i, sj.v.m).i, sj.v.v, aj.v.v)
          ELSE IF sj.r = "d" THEN aj.r = "v" /\ DefaultIs(f, aj.v)
          ELSE SameAt(X, f.ty, f.ty.n, sj, aj)

\* ---- what was written and what is read back
Given(val, id) == \E k \in 1..Len(val.f) : val.f[k].id = id
GivenAs(val, id) == val.f[CHOOSE k \in 1..Len(val.f) : val.f[k].id = id].v
AsAbsent(f, a) ==
  LET s == Absent(f) IN
  CASE s.r = "*" -> a.r \in {"v", "n", "e", "*"}
    [] s.r = "d" -> a.r = "d" \/ (a.r = "v" /\ DefaultIs(f, a.v))
    [] OTHER -> a.r = s.r
\* W, R: schemas of the writer and of the reader
RECURSIVE ReadBack(_, _, _, _, _, _), ReadAt(_, _, _, _, _, _, _)
ReadAt(W, R, wt, rt, n, v, a) ==
  IF n > 0 THEN a.r = "v" /\ a.v.n = Len(v) /\ Len(a.v.e) = F!Min(Len(v), MaxElems)
                /\ \A k \in 1..Len(a.v.e) : ReadAt(W, R, wt, rt, n - 1, v[k], a.v.e[k])
  ELSE CASE wt.k \in {"sc", "str"} -> a.r = "v" /\ a.v = v
         [] wt.k = "enum" -> IF Knows(R, rt.i, v) THEN a.r = "v" /\ a.v = v ELSE a.r = "e"
         [] wt.k = "tab" -> a.r = "v" /\ ReadBack(W, wt.i, R, rt.i, v, a.v)
ReadBack(W, wi, R, ri, val, a) ==
  /\ Len(a.f) = Len(Tab(R, ri))
  /\ \A j \in 1..Len(a.f) :
       LET f == Tab(R, ri)[j]
           aj == a.f[j]
           known == j <= Len(Tab(W, wi))
           g == Tab(W, wi)[j]
           given == known /\ Given(val, g.id)
           v == GivenAs(val, g.id)
           none == aj.r = IF f.req THEN "e" ELSE "n" IN
       /\ aj.id = f.id
       /\ IF IsUnionField(f.ty)
          THEN IF ~given \/ v.m = "None"
               THEN none /\ (aj.tr \in {"n", "d"} \/ (aj.tr = "v" /\ aj.tv = "None") \/ (f.req /\ aj.tr \in {"e", "*"}))
               ELSE IF ~Knows(R, f.ty.i, v.m) THEN aj.tr = "e" /\ aj.r = "e"
               ELSE /\ aj.tr = "v" /\ aj.tv = v.m
                    /\ IF v.v = <<>> THEN none
                       ELSE /\ aj.r = "v" /\ aj.v.m = v.m
                            /\ ReadBack(W, Member(W, g.ty.i, v.m).i, R, Member(R, f.ty.i, v.m).i, v.v[1], aj.v.v)
          ELSE IF ~known THEN AsAbsent(f, aj)
          ELSE IF ~given THEN
               \* left out; what the arguments of an enum without a default hold
               \* then is not said
               IF IsScalar(f.ty) /\ ~HasDefault(f) THEN aj.r \in {"v", "n", "*"} ELSE AsAbsent(f, aj)
          ELSE \/ ReadAt(W, R, g.ty, f.ty, f.ty.n, v, aj)
               \* a default left out
               \/ HasDefault(g) /\ DefaultIs(g, v) /\ HasDefault(f)
                  /\ (aj.r = "d" \/ (aj.r = "v" /\ DefaultIs(f, aj.v)))

\* ---- where generated code puts what it writes
Same0(f, v) == HasDefault(f) /\ DefaultIs(f, v)
\* a default is left out, if there is one that equals itself
Elides(f) == HasDefault(f) /\ ~(f.def # <<>> /\ f.ty.k = "sc" /\ F!IsFloat(f.ty.t) /\ f.def[1].t = "f" /\ f.def[1].kind = "nan")
RECURSIVE WireOk(_, _, _, _, _), WireAt(_, _, _, _, _, _)
WireAt(b, X, ty, n, p, v) ==      \* stored at p
  IF n > 0 THEN
    LET q == F!FollowU(b, p)
        sz == IF n = 1 /\ ty.k \in {"sc", "enum"} THEN F!Size(ty.t) ELSE 4 IN
    /\ q # F!NoLoc /\ F!In(b, q, 4) /\ F!VecLen(b, q) = Len(v) /\ F!In(b, q + 4, sz * Len(v))
    /\ q % 4 = 0 /\ (q + 4) % sz = 0
    /\ \A k \in 1..Len(v) : WireAt(b, X, ty, n - 1, q + 4 + (k - 1) * sz, v[k])
  ELSE CASE ty.k = "sc" -> F!Sub(b, p, Len(v)) = v
         [] ty.k = "enum" -> F!Sub(b, p, F!Size(ty.t)) = Member(X, ty.i, v).v
         [] ty.k = "str" -> LET q == F!FollowU(b, p) IN q # F!NoLoc /\ q % 4 = 0 /\ F!StrAns(b, q) = {F!Ok(v)}
         [] ty.k = "tab" -> LET q == F!FollowU(b, p) IN q # F!NoLoc /\ q % 4 = 0 /\ WireOk(b, X, ty.i, q, v)
WireOk(b, X, i, loc, val) ==
  LET vt == F!VTableLoc(b, loc)
      fs == Tab(X, i)
      \* what a slot holds, and how wide it is
      Slots == UNION {IF IsUnionField(fs[j].ty) THEN {<<fs[j].s, 1>>, <<fs[j].s + 2, 4>>} ELSE {<<fs[j].s, Stored(fs[j].ty)>>} : j \in 1..Len(fs)}
      O == TLCEval([s \in {x[1] : x \in Slots} |-> F!SlotOf(b, loc, s)])
      here == TLCEval({<<x[1], x[2], O[x[1]].o>> : x \in {y \in Slots : O[y[1]].st = "at"}})
      covered == UNION {x[3]..(x[3] + x[2] - 1) : x \in here}
      len == F!U16(b, vt)
      inline == F!U16(b, vt + 2) IN
  /\ F!In(b, loc, 4) /\ loc % 4 = 0 /\ vt # F!NoLoc /\ F!In(b, vt, 4) /\ F!In(b, vt, len) /\ F!In(b, loc, inline)
  /\ len % 2 = 0 /\ len >= 4 /\ len <= 4 + 2 * NSlots(X, i) /\ inline >= 4
  /\ \A x \in Slots : O[x[1]].st # "oob"
  /\ \A x \in here : x[3] % x[2] = 0 /\ x[3] >= loc + 4 /\ x[3] + x[2] <= loc + inline
  \* no two overlap, and what is between them is zero
  /\ Cardinality(covered) = FoldLeft(LAMBDA n, j : n + (IF j > 0 THEN j ELSE 0), 0, [k \in 1..(2 * NSlots(X, i) + 4) |->
       LET h == {x \in here : x[1] = k} IN IF h = {} THEN 0 ELSE (CHOOSE x \in h : TRUE)[2]])
  /\ \A p \in ((loc + 4)..(loc + inline - 1)) \ covered : F!At(b, p) = 0
  /\ \A j \in 1..Len(fs) :
       LET f == fs[j]
           v == GivenAs(val, f.id)
           x == O[f.s] IN
       IF ~Given(val, f.id) THEN (IsScalar(f.ty) /\ (f.req \/ ~Elides(f) \/ x.st = "none")) \/ x.st = "none" \/ (IsUnionField(f.ty) /\ F!At(b, x.o) = 0 /\ O[f.s + 2].st = "none")
       ELSE IF IsUnionField(f.ty) THEN
         IF v.m = "None" THEN x.st = "none" \/ F!At(b, x.o) = 0
         ELSE /\ x.st = "at" /\ <<F!At(b, x.o)>> = Member(X, f.ty.i, v.m).v
              /\ IF v.v = <<>> THEN O[f.s + 2].st = "none"
                 ELSE LET y == O[f.s + 2]
                          q == F!FollowU(b, y.o) IN
                      y.st = "at" /\ q # F!NoLoc /\ WireOk(b, X, Member(X, f.ty.i, v.m).i, q, v.v[1])
       ELSE IF x.st = "none" THEN Same0(f, v) /\ ~f.req
       ELSE ~(IsScalar(f.ty) /\ Elides(f) /\ Same0(f, v) /\ ~f.req) /\ WireAt(b, X, f.ty, f.ty.n, x.o, v)

\* ---- another writer of the format
\* objects: [k |-> "str", v], [k |-> "vec", z, e (elements' bytes)], [k |-> "refs", x],
\* [k |-> "tab", f (of [s, v (bytes)] or [s, x (object)]), n (slots)]
Force(o, f, v) == o.force \/ f.req \/ ~Same0(f, v)
RECURSIVE Wire(_, _, _, _), WireVal(_, _, _, _, _)
WireVal(X, ty, n, v, o) ==
  IF n > 0 THEN
    IF n = 1 /\ ty.k = "sc" THEN [k |-> "vec", z |-> F!Size(ty.t), e |-> v]
    ELSE IF n = 1 /\ ty.k = "enum" THEN [k |-> "vec", z |-> F!Size(ty.t), e |-> [j \in 1..Len(v) |-> Member(X, ty.i, v[j]).v]]
    ELSE [k |-> "refs", x |-> [j \in 1..Len(v) |-> WireVal(X, ty, n - 1, v[j], o)]]
  ELSE IF ty.k = "str" THEN [k |-> "str", v |-> v]
  ELSE Wire(X, ty.i, v, o)
Wire(X, i, val, o) ==
  LET fs == Tab(X, i)
      Ent(j) == LET f == fs[j]
                    v == GivenAs(val, f.id) IN
                IF ~Given(val, f.id) THEN <<>>
                ELSE IF IsUnionField(f.ty)
                THEN (IF v.m = "None" THEN (IF o.force THEN <<[s |-> f.s, r |-> FALSE, v |-> <<0>>]>> ELSE <<>>)
                      ELSE <<[s |-> f.s, r |-> FALSE, v |-> Member(X, f.ty.i, v.m).v]>>
                           \o (IF v.v = <<>> THEN <<>>
                               ELSE <<[s |-> f.s + 2, r |-> TRUE, v |-> Wire(X, Member(X, f.ty.i, v.m).i, v.v[1], o)]>>))
                ELSE IF IsScalar(f.ty)
                THEN (IF Force(o, f, v) THEN <<[s |-> f.s, r |-> FALSE, v |-> IF f.ty.k = "enum" THEN Member(X, f.ty.i, v).v ELSE v]>> ELSE <<>>)
                ELSE <<[s |-> f.s, r |-> TRUE, v |-> WireVal(X, f.ty, f.ty.n, v, o)]>>
      ents == FoldLeft(LAMBDA acc, j : acc \o Ent(j), <<>>, [j \in 1..Len(fs) |-> j])
      over == {val.raw[k].s : k \in 1..Len(val.raw)}
      keep == SelectSeq(ents, LAMBDA x : x.s \notin over) IN
  [k |-> "tab", n |-> NSlots(X, i),
   f |-> keep \o SelectSeq([k \in 1..Len(val.raw) |-> [s |-> val.raw[k].s, r |-> FALSE, v |-> val.raw[k].v]], LAMBDA x : x.v # <<>>)]

Up(n, k) == ((n + k - 1) \div k) * k
Put(b, p, x) == [i \in 1..Len(b) |-> IF i > p /\ i <= p + Len(x) THEN x[i - p] ELSE b[i]]
Fill(n, c) == [i \in 1..n |-> c]
Join(xs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, xs)
\* the bytes of an object (a multiple of 8) and where in them it is
RECURSIVE Enc(_, _)
\* objects one after another, from position at: [b, p (their positions)]
Kids(xs, at, o) ==
  FoldLeft(LAMBDA acc, x : LET e == Enc(x, o) IN [b |-> acc.b \o e.b, p |-> Append(acc.p, at + Len(acc.b) + e.p)],
           [b |-> <<>>, p |-> <<>>], xs)
Enc(x, o) ==
  CASE x.k = "str" ->
         LET n == Len(x.v) IN [p |-> 0, b |-> F!LE32(n) \o x.v \o <<0>> \o Fill(Up(n + 5, 8) - n - 5, o.junk)]
    [] x.k = "vec" ->
         LET body == Join(x.e)
             pre == IF x.z = 8 THEN 4 ELSE 0
             n == pre + 4 + Len(body) IN
         [p |-> pre, b |-> Fill(pre, o.junk) \o F!LE32(Len(x.e)) \o body \o Fill(Up(n, 8) - n, o.junk)]
    [] x.k = "refs" ->
         LET n == 4 + 4 * Len(x.x)
             at == Up(n, 8)
             kids == Kids(x.x, at, o) IN
         [p |-> 0, b |-> F!LE32(Len(x.x)) \o Join([k \in 1..Len(x.x) |-> F!LE32(kids.p[k] - 4 * k)])
                         \o Fill(at - n, o.junk) \o kids.b]
    [] x.k = "tab" ->
         LET fs == IF o.rev THEN [k \in 1..Len(x.f) |-> x.f[Len(x.f) + 1 - k]] ELSE x.f
             W(f) == IF f.r THEN 4 ELSE Len(f.v)
             lay == FoldLeft(LAMBDA acc, f : LET at == Up(acc.n, W(f)) IN [n |-> at + W(f), p |-> Append(acc.p, at)],
                             [n |-> 4, p |-> <<>>], fs)
             last == {f.s : f \in SetOf(fs)}
             top == IF o.trim THEN (IF last = {} THEN 4 ELSE 2 + CHOOSE m \in last : \A s \in last : s <= m)
                    ELSE 4 + 2 * F!Max(x.n, Cardinality(last))
             len == IF \A s \in last : s < top THEN top ELSE 2 + CHOOSE m \in last : \A s \in last : s <= m
             v8 == Up(len, 8)
             t8 == Up(lay.n, 8)
             at == IF o.after THEN 0 ELSE v8
             vt0 == F!LE16(len) \o F!LE16(lay.n) \o Fill(len - 4, 0) \o Fill(v8 - len, o.junk)
             vt == FoldLeft(LAMBDA acc, k : Put(acc, fs[k].s, F!LE16(lay.p[k])), vt0, [k \in 1..Len(fs) |-> k])
             refs == SelectSeq([k \in 1..Len(fs) |-> k], LAMBDA k : fs[k].r)
             kids == Kids([k \in 1..Len(refs) |-> fs[refs[k]].v], v8 + t8, o)
             b0 == F!LE32S(IF o.after THEN 0 - t8 ELSE v8) \o Fill(t8 - 4, o.junk)
             b1 == FoldLeft(LAMBDA acc, k : IF fs[k].r THEN acc ELSE Put(acc, lay.p[k], fs[k].v), b0, [k \in 1..Len(fs) |-> k])
             b2 == FoldLeft(LAMBDA acc, k : Put(acc, lay.p[refs[k]], F!LE32(kids.p[k] - at - lay.p[refs[k]])), b1, [k \in 1..Len(refs) |-> k]) IN
         [p |-> at, b |-> (IF o.after THEN b2 \o vt ELSE vt \o b2) \o kids.b]
\* a buffer; o: [rev, trim, after, force, junk, sp]
Encode(X, i, val, o) ==
  LET e == Enc(Wire(X, i, val, o), o) IN
  IF o.sp THEN F!LE32(Len(e.b) + 4) \o F!LE32(4 + e.p) \o e.b
  ELSE F!LE32(8 + e.p) \o Fill(4, o.junk) \o e.b
===============================================================================

------------------------------ MODULE FlatGraph -------------------------------
(* The builder as its users see it: a protocol (idle, in a table, in a        *)
(* vector, finished) and the graph of the objects written so far. Nothing     *)
(* about bytes. A call is a record op (see Legal for the calls there are);    *)
(* handles are positions in hs.                                               *)
EXTENDS FlatReader

GInit == [mode |-> "idle",      \* idle | table | vector | broken (after a refused call)
          fin |-> FALSE,
          hs |-> <<>>,          \* finished objects
          cur |-> <<>>,         \* fields or elements of the object under construction
          root |-> 0, last |-> [op |-> "none"]]

Creates == {"cstr", "cbstr", "cvec", "cvecd", "cvecs", "cvech"}

\* slots really written so far in the table under construction
Written(f) == ~f.elided
SlotTaken(cur, s) == \E i \in 1..Len(cur) : cur[i].s = s /\ Written(cur[i])
DupSlot(cur) == \E i, j \in 1..Len(cur) : i < j /\ cur[i].s = cur[j].s /\ Written(cur[i]) /\ Written(cur[j])

Present(o, s) == \E i \in 1..Len(o.f) : o.f[i].s = s /\ Written(o.f[i])

Elided(op) == op.op = "slot" /\ ScalarEq(op.t, op.v, op.d)

\* May the call be made in this state? ("must": yes, "mustnot": no)
Legal(G, op) ==
  CASE op.op \in Creates \cup {"stab", "svec"} -> G.mode = "idle"
    [] op.op \in {"slot", "slota", "sloth"} -> G.mode = "table"
    [] op.op \in {"push", "pushh"} -> G.mode = "vector"
    [] op.op = "etab" -> G.mode = "table" /\ ~DupSlot(G.cur)
    [] op.op = "evec" -> G.mode = "vector"
    [] op.op = "req" -> Present(G.hs[op.h], op.s)
    [] op.op = "fin" -> G.mode = "idle" /\ ~G.fin /\ Len(op.id) \in {0, 4}
    [] op.op = "data" -> G.fin
    [] op.op = "reset" -> TRUE

\* A second write to one slot may be refused at once or when the table ends.
MayRefuse(G, op) == op.op \in {"slot", "slota", "sloth"} /\ G.mode = "table" /\ ~Elided(op) /\ SlotTaken(G.cur, op.s)

AddObj(G, o) == [G EXCEPT !.hs = Append(@, o)]

Field(op) ==
  CASE op.op = "slot" -> [s |-> op.s, k |-> "sc", t |-> op.t, v |-> op.v, d |-> op.d, h |-> 0,
                          elided |-> Elided(op)]
    [] op.op = "slota" -> [s |-> op.s, k |-> "sc", t |-> op.t, v |-> op.v,
                           \* what an executor reads with: every bit differs
                           d |-> IF op.t = "bool" THEN <<1 - op.v[1]>>
                                 ELSE [i \in 1..Len(op.v) |-> 255 - op.v[i]],
                           h |-> 0, elided |-> FALSE]
    [] op.op = "sloth" -> [s |-> op.s, k |-> "ref", t |-> "", v |-> <<>>, d |-> <<>>, h |-> op.h,
                           elided |-> FALSE]

\* The effect of a legal call.
Apply(G, op) ==
  CASE op.op \in {"cstr", "cbstr"} -> AddObj(G, [k |-> "str", bs |-> (op.op = "cbstr"), v |-> op.s])
    [] op.op \in {"cvec", "cvecd"} -> AddObj(G, [k |-> "vec", t |-> op.t, e |-> op.e])
    [] op.op = "cvecs" -> AddObj(G, [k |-> "strs", s |-> op.ss])
    [] op.op = "cvech" -> AddObj(G, [k |-> "refs", hs |-> op.hs])
    [] op.op = "svec" -> [G EXCEPT !.mode = "vector", !.cur = <<>>]
    [] op.op = "push" -> [G EXCEPT !.cur = Append(@, op.v)]
    [] op.op = "pushh" -> [G EXCEPT !.cur = Append(@, op.h)]
    [] op.op = "evec" ->
         [AddObj(G, IF op.t = "off" THEN [k |-> "refs", hs |-> Reverse2(G.cur)]
                    ELSE [k |-> "vec", t |-> op.t, e |-> Reverse2(G.cur)])
           EXCEPT !.mode = "idle", !.cur = <<>>]
    [] op.op = "stab" -> [G EXCEPT !.mode = "table", !.cur = <<>>]
    [] op.op \in {"slot", "slota", "sloth"} -> [G EXCEPT !.cur = Append(@, Field(op))]
    [] op.op = "etab" -> [AddObj(G, [k |-> "tab", f |-> G.cur]) EXCEPT !.mode = "idle", !.cur = <<>>]
    [] op.op = "fin" -> [G EXCEPT !.fin = TRUE, !.root = op.h, !.last = op]
    [] op.op = "reset" -> GInit
    [] op.op \in {"req", "data"} -> G

GStep(G, op) == IF G.mode = "broken" /\ op.op # "reset" THEN G
                ELSE IF Legal(G, op) THEN Apply(G, op)
                ELSE [G EXCEPT !.mode = "broken"]

------------------------------------------------------------------------------
(* What reading the finished buffer must give (the executor's readback tree). *)

FieldNone(f) == IF f.elided THEN None ELSE Ok(f.v)
FieldDef(f) == IF f.elided THEN Ok(f.d) ELSE Ok(f.v)

VecTree(t, e) ==
  LET els == [i \in 1..Len(e) |-> Ok(e[i])] IN
  [k |-> "vec", len |-> Len(e), empty |-> IF e = <<>> THEN "yes" ELSE "no",
   get |-> els, iter |-> els, back |-> els]
RECURSIVE Flat(_)
Flat(e) == IF e = <<>> THEN <<>>
           ELSE IF Len(e) = 1 THEN e[1]
           ELSE LET m == Len(e) \div 2 IN Flat(SubSeq(e, 1, m)) \o Flat(SubSeq(e, m + 1, Len(e)))

MaxSlot(f) == IF f = <<>> THEN 4
              ELSE CHOOSE m \in {f[i].s : i \in 1..Len(f)} \cup {4} :
                     m >= 4 /\ \A i \in 1..Len(f) : f[i].s <= m
\* the slots nobody wrote that the executor looks at, in order
RECURSIVE AbsentSlots(_, _, _, _)
AbsentSlots(f, s, max, n) ==
  IF s > max + 4 \/ n = 0 THEN <<>>
  ELSE IF \E i \in 1..Len(f) : f[i].s = s THEN AbsentSlots(f, s + 2, max, n)
  ELSE <<[s |-> s, r |-> None]>> \o AbsentSlots(f, s + 2, max, n - 1)

RECURSIVE Tree(_, _)
\* an object as the target of a table's slot
Tree(hs, h) ==
  LET o == hs[h] IN
  CASE o.k = "str" -> [k |-> "str", v |-> o.v]
    [] o.k = "vec" ->
         LET t == VecTree(o.t, o.e) IN
         IF o.t = "bool" THEN t
         ELSE [k |-> "vec", len |-> t.len, empty |-> t.empty, get |-> t.get, iter |-> t.iter,
               back |-> t.back, slice |-> Ok(Flat(o.e)), safe |-> Ok(Flat(o.e))]
    [] o.k = "strs" -> LET els == [i \in 1..Len(o.s) |-> Ok(o.s[i])] IN
                       [k |-> "strs", len |-> Len(o.s), get |-> els, iter |-> els]
    [] o.k = "refs" -> [k |-> "refs", len |-> Len(o.hs),
                        el |-> [i \in 1..Len(o.hs) |->
                                  LET x == hs[o.hs[i]] IN
                                  CASE x.k = "vec" -> VecTree(x.t, x.e)
                                    [] x.k \in {"strs", "refs"} -> [k |-> "skip"]
                                    [] OTHER -> Tree(hs, o.hs[i])]]
    [] o.k = "tab" ->
         [k |-> "tab",
          f |-> [i \in 1..Len(o.f) |->
                   LET f == o.f[i] IN
                   IF f.k = "sc"
                   THEN [s |-> f.s, k |-> "sc", none |-> FieldNone(f), def |-> FieldDef(f)]
                   ELSE [s |-> f.s, k |-> "ref", to |-> Tree(hs, f.h)]],
          absent |-> AbsentSlots(o.f, 4, MaxSlot(o.f), 12)]

IdentAns(id) == IF id = <<>> THEN <<>> ELSE <<"yes", "no">>
===============================================================================

----------------------------- MODULE SchemaLimits -----------------------------
(* Schemas that are large in one respect: how many fields, members, methods or *)
(* declarations there are, how long a chain of references is, how deep types,  *)
(* values and namespaces nest. What the format and the base types allow is     *)
(* accepted and what they do not is refused, however far apart the parts are   *)
(* that make it wrong.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode,     \* "cases": print all cases; "trace": judge a log
          Part      \* "valid", "wrong": the cases of one verdict only

\* a vtable's size has 16 bits, as have its two entries before the slots
MaxSlots == (65535 - 4) \div 2
\* a union's type is an unsigned byte, zero for none
MaxMembers == 255
Top(base) == CASE base = "byte" -> 127 [] base = "ubyte" -> 255 [] base = "short" -> 32767
               [] OTHER -> 65535
Case(k, n, m, x) == [k |-> k, n |-> n, m |-> m, x |-> x]
Counts == {2, 9, 100, 260}
Depths == {1, 2, 8, 16, 40, 1000, 20000}
Cases ==
  \* n fields of one slot and m unions
  {Case("fields", n, m, "") : n \in {1, 253, 254, 255}, m \in {0, 1, 2}}
  \cup {Case("fields", n, 0, "") : n \in {MaxSlots, MaxSlots + 1, MaxSlots + 2, MaxSlots + 3, 65535, 65536}}
  \cup {Case("fields", MaxSlots - 2, 1, ""), Case("fields", MaxSlots - 1, 1, ""), Case("fields", MaxSlots, 1, "")}
  \cup {Case("union", n, 0, "") : n \in {1, 2, 127, 128, 254, 255, 256, 257, 300}}
  \cup {Case("enum", n, 0, b) : n \in {1, 127, 128, 129, 255, 256, 257, 300}, b \in {"byte", "ubyte", "short", "ushort"}}
  \* n tables, each of which refers to the next in some way, in three orders
  \cup {Case("chain", n, m, x) : n \in Counts, m \in {0, 1, 2}, x \in {"field", "vector", "union", "service", "namespace"}}
  \cup {Case("broken", n, m, x) : n \in Counts, m \in {0, 1, 2}, x \in {"field", "vector", "union", "service", "namespace"}}
  \* n parts, and the m-th of them again at the end
  \cup {Case("many", n, 0, x) : n \in Counts, x \in {"field", "member", "variant", "method", "table", "docs", "service"}}
  \cup {Case("again", n, m, x) : n \in Counts, m \in {1, 2}, x \in {"field", "member", "variant", "method", "table", "service"}}
  \* nested n deep
  \cup {Case("deep", n, 0, x) : n \in Depths, x \in {"vector", "namespace"}}
  \cup {Case("open", n, 0, x) : n \in Depths, x \in {"vector", "object", "list"}}
  \cup {Case("closed", n, 0, x) : n \in Depths, x \in {"object", "list"}}
\* "valid": accepted; "wrong": refused; "deep": there may be a limit
Verdict(c) ==
  CASE c.k = "fields" -> IF c.n + 2 * c.m <= MaxSlots THEN "valid" ELSE "wrong"
    [] c.k = "union" -> IF c.n <= MaxMembers THEN "valid" ELSE "wrong"
    [] c.k = "enum" -> IF c.n - 1 <= Top(c.x) THEN "valid" ELSE "wrong"
    [] c.k = "chain" \/ c.k = "many" -> "valid"
    [] c.k = "deep" -> IF c.n <= 16 THEN "valid" ELSE "deep"
    [] OTHER -> "wrong"         \* broken, again, open; closed values are not supported
Right(v, r) == CASE v = "valid" -> r = "ok" [] v = "wrong" -> r = "err" [] OTHER -> r \in {"ok", "err"}
Mine(c) == IF Part = "valid" THEN Verdict(c) = "valid" ELSE Verdict(c) # "valid"

Trace == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES rec
Init == IF Mode = "trace" THEN rec \in 1..Len(Trace) ELSE rec \in {c \in Cases : Mine(c)}
Next == FALSE
Spec == Init /\ [][Next]_rec
Conforms == Mode = "trace" =>
  LET r == Trace[rec]
      c == r.c
  IN Right(Verdict(c), r.r) \/ (PrintT("BAD " \o ToJson([id |-> r.id])) /\ FALSE)
Emitted == Mode = "cases" => PrintT("CASE " \o ToJson(rec))
===============================================================================

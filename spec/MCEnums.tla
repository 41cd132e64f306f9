-------------------------------- MODULE MCEnums -------------------------------
(* The members of an enum or union, taken one after another with a counter, as *)
(* a compiler takes them: for all bases and all choices of explicit values at  *)
(* and around the limits of the base. Model checked: the counter's values are  *)
(* those that the schema means, and it finds exactly what is wrong.            *)
EXTENDS SchemaResolve, Json
CONSTANTS Most, Emit
VARIABLES base, chosen, next, vals, ok
vars == <<base, chosen, next, vals, ok>>

Bases == {"byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "union"}
Picks == {"none", "below", "low", "minus", "zero", "one", "five", "high", "above"}
Base(b) == IF b = "union" THEN "ubyte" ELSE b
Pos(m) == Num(FALSE, m)
Pred(v) == IF v.neg \/ v.m = Zero THEN Num(TRUE, Add(v.m, 1)) ELSE Pos(Minus(v.m, 1))
Low(b) == IF Signed(b) THEN Num(TRUE, Shl(One, Bits(b) - 1)) ELSE Pos(Zero)
High(b) == Pos(Minus(Shl(One, IF Signed(b) THEN Bits(b) - 1 ELSE Bits(b)), 1))
ValueOf(b, c) == CASE c = "below" -> Pred(Low(b)) [] c = "low" -> Low(b) [] c = "minus" -> Num(TRUE, One) [] c = "zero" -> Pos(Zero)
                   [] c = "one" -> Pos(One) [] c = "five" -> Pos(<<5>>) [] c = "high" -> High(b) [] c = "above" -> Succ(High(b))
Start(b) == IF b = "union" THEN Pos(One) ELSE Pos(Zero)

Init == base \in Bases /\ chosen = <<>> /\ next = Start(base) /\ vals = <<>> /\ ok = TRUE
Take(c) ==
  LET v == IF c = "none" THEN next ELSE ValueOf(Base(base), c) IN
  /\ Len(chosen) < Most
  /\ chosen' = Append(chosen, c) /\ vals' = Append(vals, v) /\ next' = Succ(v)
  /\ ok' = (ok /\ v \notin SetOf(vals) /\ Fits(Base(base), v) /\ (base = "union" => v.m # Zero))
  /\ UNCHANGED base
Next == \E c \in Picks : Take(c)
Spec == Init /\ [][Next]_vars

\* the same as a declaration
Digits16(m) == IF m = Zero THEN <<0>> ELSE [i \in 1..(2 * Len(m)) |-> LET d == m[Len(m) + 1 - ((i + 1) \div 2)] IN IF i % 2 = 1 THEN d \div 16 ELSE d % 16]
Lit(v) == [t |-> "i", neg |-> v.neg, base |-> 16, d |-> Digits16(v.m)]
Ids0 == <<"Ma", "Mb", "Mc", "Md">>
Vs == [i \in 1..Len(chosen) |-> [id |-> Ids0[i], val |-> IF chosen[i] = "none" THEN <<>> ELSE <<Lit(ValueOf(Base(base), chosen[i]))>>, doc |-> <<>>]]
Decl == IF base = "union" THEN [k |-> "union", id |-> "Xx", meta |-> <<>>, vs |-> Vs, doc |-> <<>>]
        ELSE [k |-> "enum", id |-> "Xx", base |-> [n |-> 0, c |-> "b", p |-> <<base>>], meta |-> <<>>, vs |-> Vs, doc |-> <<>>]
Agree == chosen # <<>> => ok = (IF base = "union" THEN UnionLocalOk(Decl) ELSE EnumOk(Decl))
\* a member without a value is as far from the last one with a value as it stands from it
Ahead(v, n) == FoldLeft(LAMBDA x, i : Succ(x), v, [i \in 1..n |-> i])
Closed == \A i \in 1..Len(vals) :
            LET S == {j \in 1..i : chosen[j] # "none"} IN
            vals[i] = IF S = {} THEN Ahead(Start(base), i - 1)
                      ELSE LET j == CHOOSE x \in S : \A y \in S : y <= x IN Ahead(ValueOf(Base(base), chosen[j]), i - j)
Emitted == (Emit /\ chosen # <<>>) => PrintT("SENT " \o ToJson([ok |-> ok, toks |-> Unparse([inc |-> <<>>, el |-> <<Decl>>])]))
===============================================================================

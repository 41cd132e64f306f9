-------------------------------- MODULE MCPaths -------------------------------
(* A type of one namespace used in another, for all pairs of namespaces of the *)
(* scope, with types of the same names in the places where the name must not   *)
(* be looked for, in all orders of the namespaces' blocks. Generated code      *)
(* names the type by a relative path of modules: up to the last namespace in   *)
(* common, then down; model checked: the path leads to the type.               *)
EXTENDS SchemaResolve, Json
CONSTANTS Depth, Emit
VARIABLES p, q, d, order
vars == <<p, q, d, order>>

Parts == {"n", "k"}
Paths == UNION {[1..i -> Parts] : i \in 0..Depth}
N(path, s) == [n |-> 0, c |-> "i", p |-> path \o <<s>>]
B(s) == [n |-> 0, c |-> "b", p |-> <<s>>]
Fd(id, ty) == [id |-> id, ty |-> ty, def |-> <<>>, meta |-> <<>>, doc |-> <<>>]
T(id, fs) == [k |-> "table", id |-> id, meta |-> <<>>, fields |-> fs, doc |-> <<>>]
Vr(id) == [id |-> id, val |-> <<>>, doc |-> <<>>]
E(id, ids) == [k |-> "enum", id |-> id, base |-> B("byte"), meta |-> <<>>, vs |-> [i \in 1..Len(ids) |-> Vr(ids[i])], doc |-> <<>>]
U(id, ids) == [k |-> "union", id |-> id, meta |-> <<>>, vs |-> [i \in 1..Len(ids) |-> Vr(ids[i])], doc |-> <<>>]
Ns(path) == [k |-> "namespace", path |-> path, doc |-> <<>>]

Block(ns, el) == (IF ns = <<>> THEN <<>> ELSE <<Ns(ns)>>) \o el
Target == Block(p, <<T("Tt", <<Fd("x", B("int"))>>), E("Ee", <<"P", "Q">>), U("Uu", <<"Tt">>)>>)
User == Block(q, <<T("Qq", <<Fd("t", N(p, "Tt")), Fd("v", [N(p, "Tt") EXCEPT !.n = 1]), [Fd("e", N(p, "Ee")) EXCEPT !.def = <<[t |-> "id", s |-> "Q"]>>],
                              Fd("u", N(p, "Uu"))>>),
                   [k |-> "rpc", id |-> "Ss", ms |-> <<[id |-> "m", req |-> p \o <<"Tt">>, res |-> <<"Qq">>, meta |-> <<>>, doc |-> <<>>]>>, doc |-> <<>>]>>)
\* where the same names also are: nowhere, below the user, beside it, where the target's path ends, one above
DecoyNs == CASE d = "inner" -> q \o p
             [] d = "here" -> q
             [] d = "tail" -> IF p = <<>> THEN p ELSE Tail(p)
             [] d = "above" -> IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
             [] OTHER -> p
Decoy == IF d = "none" THEN <<>> ELSE Block(DecoyNs, <<T("Tt", <<Fd("y", B("string"))>>), E("Ee", <<"R">>), U("Uu", <<"Tt">>)>>)
\* what stands in no namespace comes first
First(o) == \A i, j \in 1..3 : i < j => (LET ns(b) == CASE b = 1 -> p [] b = 2 -> q [] OTHER -> DecoyNs IN ns(o[j]) = <<>> => ns(o[i]) = <<>>)
Orders == {o \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => o[i] # o[j]}

Init == /\ p \in Paths /\ q \in Paths /\ (p = <<>> => q = <<>>)
        /\ d \in {"none", "inner", "here", "tail", "above"} /\ (d # "none" => DecoyNs # p)
        /\ order = <<>>
Next == order = <<>> /\ order' \in {o \in Orders : First(o)} /\ UNCHANGED <<p, q, d>>
Spec == Init /\ [][Next]_vars

Ast == [inc |-> <<>>, el |-> FoldLeft(LAMBDA acc, b : acc \o (CASE b = 1 -> Target [] b = 2 -> User [] OTHER -> Decoy), <<>>, order)]
Chosen == order # <<>>
\* every one of these schemas is valid
AllValid == Chosen => Valid(Ast) /\ ~Unsaid(Ast)
\* the relative path, and where it leads from the module it is used in
Common(full, ns) == LET S == {i \in 0..Len(ns) : i < Len(full) /\ SubSeq(full, 1, i) = SubSeq(ns, 1, i)} IN CHOOSE i \in S : \A j \in S : j <= i
Rel(full, ns) == [i \in 1..(Len(ns) - Common(full, ns)) |-> "super"] \o SubSeq(full, Common(full, ns) + 1, Len(full))
Walk(ns, rel) == FoldLeft(LAMBDA at, s : IF s = "super" THEN SubSeq(at, 1, Len(at) - 1) ELSE Append(at, s), ns, rel)
Leads == Walk(q, Rel(p \o <<"Tt">>, q)) = p \o <<"Tt">>
Emitted == Chosen /\ Emit => PrintT("SENT " \o ToJson([g |-> [p |-> p, q |-> q, d |-> d], toks |-> Unparse(Ast)]))
===============================================================================

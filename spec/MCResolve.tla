------------------------------- MODULE MCResolve ------------------------------
(* The schema compiler's resolution: the elements are visited pass by pass,    *)
(* those that refer to something not yet known are put off, until nothing is   *)
(* left or a pass changes nothing. Model checked for all schemas of the scope  *)
(* in all orders: it ends, and it accepts exactly the valid schemas. The       *)
(* schemas are emitted and compiled by the real compiler.                      *)
EXTENDS SchemaResolve, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES schema, queue, later, known, done, before, verdict
vars == <<schema, queue, later, known, done, before, verdict>>

N(s) == [n |-> 0, c |-> "i", p |-> <<s>>]
Q(s) == [n |-> 0, c |-> "i", p |-> <<"n", s>>]
V(ty) == [ty EXCEPT !.n = ty.n + 1]
B(s) == [n |-> 0, c |-> "b", p |-> <<s>>]
Fd(id, ty) == [id |-> id, ty |-> ty, def |-> <<>>, meta |-> <<>>, doc |-> <<>>]
Dv(f, lit) == [f EXCEPT !.def = <<lit>>]
T(id, fs) == [k |-> "table", id |-> id, meta |-> <<>>, fields |-> fs, doc |-> <<>>]
Vr(id) == [id |-> id, val |-> <<>>, doc |-> <<>>]
E(id, ids) == [k |-> "enum", id |-> id, base |-> B("byte"), meta |-> <<>>, vs |-> [i \in 1..Len(ids) |-> Vr(ids[i])], doc |-> <<>>]
U(id, ids) == [k |-> "union", id |-> id, meta |-> <<>>, vs |-> [i \in 1..Len(ids) |-> Vr(ids[i])], doc |-> <<>>]
Root(id) == [k |-> "root", id |-> id]
Rpc(id, a, b) == [k |-> "rpc", id |-> id, ms |-> <<[id |-> "m", req |-> a, res |-> b, meta |-> <<>>, doc |-> <<>>]>>, doc |-> <<>>]
Mt(id, a, b, meta) == [id |-> id, req |-> a, res |-> b, meta |-> meta, doc |-> <<>>]
Svc(id, ms) == [k |-> "rpc", id |-> id, ms |-> ms, doc |-> <<>>]
Key(s) == [key |-> s, val |-> <<>>]
KeyS(s, v) == [key |-> s, val |-> <<[t |-> "s", s |-> v, n |-> 0]>>]
Ns(p) == [k |-> "namespace", path |-> p, doc |-> <<>>]
Lit(s) == [t |-> "id", s |-> s]

Elems ==
  CASE Alphabet = "ref" -> {T("Aa", <<>>), T("Aa", <<Fd("x", N("Aa"))>>), T("Aa", <<Fd("x", N("Cc")), Fd("y", N("Ee"))>>), T("Cc", <<Fd("x", V(N("Aa")))>>),
                            T("Aa", <<Fd("x", N("Uu"))>>), T("Cc", <<Fd("x", V(N("Uu")))>>),
                            E("Ee", <<"p", "q">>), U("Uu", <<"Aa">>), U("Uu", <<"Aa", "Cc">>), Root("Aa")}
    [] Alphabet = "dup" -> {T("Aa", <<>>), T("Aa", <<Fd("x", N("Ee"))>>), T("Aa", <<Dv(Fd("x", N("Ee")), Lit("q"))>>), T("Aa", <<Fd("x", B("int")), Fd("x", N("Cc"))>>),
                            E("Aa", <<"p">>), E("Ee", <<"p", "q">>), E("Ee", <<"p">>), E("Ee", <<"p", "p">>), U("Aa", <<"Aa">>), U("Uu", <<"Ee">>), U("Uu", <<"Aa">>), Root("Ee")}
    [] Alphabet = "ns" -> {Ns(<<"n">>), Ns(<<"n", "k">>), Ns(<<"h">>), Ns(<<"n", "n">>), T("Aa", <<>>), T("Aa", <<Fd("x", Q("Aa"))>>), T("Cc", <<Fd("x", N("Aa"))>>), T("Cc", <<Fd("x", Q("Ee"))>>),
                           E("Ee", <<"p">>), U("Uu", <<"Aa">>), Root("Aa")}
    [] Alphabet = "rpc" -> {Ns(<<"n">>), T("Aa", <<>>), T("Aa", <<Fd("x", N("Cc"))>>), T("Cc", <<>>), E("Cc", <<"p">>), Rpc("Ss", <<"Aa">>, <<"Aa">>), Rpc("Ss", <<"Aa">>, <<"Cc">>),
                            Rpc("Rr", <<"n", "Aa">>, <<"Aa">>), Rpc("Aa", <<"Aa">>, <<"n", "Cc">>)}
    [] Alphabet = "meth" -> {Ns(<<"n">>), T("Aa", <<>>), T("Cc", <<>>),
                             Svc("Ss", <<Mt("m", <<"Aa">>, <<"Cc">>, <<KeyS("streaming", "bidi"), Key("idempotent")>>),
                                         Mt("k", <<"Cc">>, <<"Aa">>, <<Key("idempotent"), KeyS("streaming", "server")>>)>>),
                             Svc("Ss", <<Mt("m", <<"Aa">>, <<"Aa">>, <<KeyS("note", "bidi")>>), Mt("k", <<"Aa">>, <<"n", "Cc">>, <<KeyS("streaming", "client")>>),
                                         Mt("j", <<"Aa">>, <<"Aa">>, <<>>)>>),
                             Svc("Ss", <<Mt("m", <<"Aa">>, <<"Aa">>, <<>>), Mt("m", <<"Aa">>, <<"Aa">>, <<>>)>>),
                             Svc("Rr", <<Mt("m", <<"Aa">>, <<"Aa">>, <<KeyS("streaming", "Bidi")>>)>>),
                             Svc("Rr", <<Mt("m", <<"Aa">>, <<"Aa">>, <<KeyS("streaming", "server,client")>>)>>),
                             Svc("Rr", <<Mt("m", <<"Aa">>, <<"Aa">>, <<Key("streaming")>>)>>)}

\* known: full name -> "declared" (a table whose fields wait), or the kind
Has(x) == x \in DOMAIN known
Put(x, k) == [y \in DOMAIN known \cup {x} |-> IF y = x THEN k ELSE known[y]]
Defined(x) == Has(x) /\ known[x] # "declared"
IsTab(x) == Has(x) /\ known[x] \in {"declared", "table"}

Init == /\ schema \in UNION {[1..n -> Elems] : n \in 1..MaxLen}
        /\ LET D == DeclsFrom(schema, 1, <<>>) IN queue = D
        /\ later = <<>> /\ known = <<>> /\ done = {} /\ before = <<0, 0>> /\ verdict = "none"

D0 == DeclsFrom(schema, 1, <<>>)
Wait(k) == later' = Append(later, Head(queue)) /\ known' = k /\ UNCHANGED <<done, verdict>>
Ready(k) == known' = k /\ done' = done \cup {Head(queue)} /\ UNCHANGED <<later, verdict>>
Refuse == verdict' = "refused" /\ UNCHANGED <<later, known, done>>
EnumHas(full, id) == \E i \in 1..Len(D0) : D0[i].e.k = "enum" /\ Full(D0[i]) = full /\ id \in SetOf(Ids(D0[i].e.vs))

Visit ==
  /\ verdict = "none" /\ queue # <<>>
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<schema, before>>
  /\ LET d == Head(queue)
         full == Full(d) IN
     CASE d.e.k = "table" ->
            LET k == Put(full, "declared")
                Knows(ty) == ty.c = "b" \/ Abs(d.ns, ty.p) \in DOMAIN k
                fs == d.e.fields
                firstUnknown == LET s == {i \in 1..Len(fs) : ~Knows(fs[i].ty)} IN IF s = {} THEN Len(fs) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
                Bad(f) == \/ f.ty.c = "i" /\ f.ty.n > 0 /\ k[Abs(d.ns, f.ty.p)] = "union"
                          \/ f.def # <<>> /\ ~(f.ty.c = "i" /\ f.ty.n = 0 /\ k[Abs(d.ns, f.ty.p)] = "enum" /\ EnumHas(Abs(d.ns, f.ty.p), f.def[1].s)) IN
            IF Defined(full) THEN Refuse
            ELSE IF \E i \in 1..(firstUnknown - 1) : Bad(fs[i]) THEN Refuse
            ELSE IF firstUnknown <= Len(fs) THEN Wait(k)
            ELSE IF ~Distinct(Ids(fs)) THEN Refuse
            ELSE Ready(Put(full, "table"))
       [] d.e.k = "enum" -> IF Defined(full) \/ ~EnumOk(d.e) THEN Refuse ELSE Ready(Put(full, "enum"))
       [] d.e.k = "union" ->
            LET m == [i \in 1..Len(d.e.vs) |-> Append(d.ns, d.e.vs[i].id)]
                unknown == {i \in 1..Len(m) : ~Has(m[i])}
                first == IF unknown = {} THEN Len(m) + 1 ELSE CHOOSE i \in unknown : \A j \in unknown : i <= j IN
            IF Defined(full) THEN Refuse
            ELSE IF \E i \in 1..(first - 1) : ~IsTab(m[i]) THEN Refuse
            ELSE IF first <= Len(m) THEN Wait(known)
            ELSE IF ~UnionLocalOk(d.e) THEN Refuse
            ELSE Ready(Put(full, "union"))
       [] d.e.k = "root" ->
            IF ~Defined(Append(d.ns, d.e.id)) THEN Wait(known)
            ELSE IF known[Append(d.ns, d.e.id)] = "table" THEN Ready(known) ELSE Refuse
       [] d.e.k = "rpc" ->
            LET r == FoldLeft(LAMBDA acc, m : acc \o <<Abs(d.ns, m.req), Abs(d.ns, m.res)>>, <<>>, d.e.ms) IN
            IF (\E x \in done : x.e.k = "rpc" /\ Full(x) = full) \/ ~Distinct(Ids(d.e.ms)) \/ \E i \in 1..Len(d.e.ms) : StreamOf(d.e.ms[i]) = "bad" THEN Refuse
            ELSE IF \E i \in 1..Len(r) : Defined(r[i]) /\ known[r[i]] # "table" /\ \A j \in 1..(i - 1) : Defined(r[j]) THEN Refuse
            ELSE IF \E i \in 1..Len(r) : ~Defined(r[i]) THEN Wait(known)
            ELSE Ready(known)

EndPass ==
  /\ verdict = "none" /\ queue = <<>>
  /\ LET now == <<Cardinality(done), Cardinality(DOMAIN known)>> IN
     IF later = <<>> THEN verdict' = "accepted" /\ UNCHANGED <<queue, later, before>>
     ELSE IF now = before THEN verdict' = "refused" /\ UNCHANGED <<queue, later, before>>
     ELSE queue' = later /\ later' = <<>> /\ before' = now /\ UNCHANGED verdict
  /\ UNCHANGED <<schema, known, done>>
Next == Visit \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ast == [inc |-> <<>>, el |-> schema]
\* two types or services with one name of which one is never finished, or an
\* equal declaration twice, are told apart by their number
Right == verdict # "none" => (verdict = "accepted") = Valid(Ast)
Ends == <>(verdict # "none")
Emitted == (verdict # "none" /\ Emit) => PrintT("SENT " \o ToJson([toks |-> Unparse(Ast), v |-> verdict]))
===============================================================================

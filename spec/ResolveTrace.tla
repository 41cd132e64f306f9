------------------------------ MODULE ResolveTrace ----------------------------
(* What the real compiler makes of schemas. A record has several texts, runs,  *)
(* of the same declarations in different orders.                               *)
(*  S02: valid schemas are accepted, every reference in the generated code     *)
(*       is to what it means, and equal meanings give equal code.              *)
(*  S03: invalid schemas are refused, without a panic and without output.      *)
(*  G08: the documentation comments are those of the generated items.          *)
(*  G06: the RPC generator gets the services, resolved, and each in its place. *)
EXTENDS GenNames, Json, IOUtils
CONSTANTS Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
\* the records in lanes, which TLC's workers follow side by side
Lanes == 16
Init == rec \in 1..Len(Trace) /\ rec <= Lanes
Next == rec + Lanes <= Len(Trace) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec
R == Trace[rec]

Items(o, k) == {i \in 1..Len(o.items) : o.items[i].k = k}
Fns(o, path) == UNION {SetOf(o.items[i].fns) : i \in {j \in Items(o, "impl") : o.items[j].path = path}}

Struct(o, D) ==
  /\ \A t \in TablesOf(D) :
       /\ Cardinality({i \in Items(o, "struct") : o.items[i].path = t.path}) = 1
       /\ t.acc \subseteq {[id |-> x.id, refs |-> x.refs] : x \in Fns(o, t.path)}
       /\ t.path \in RootsOf(D) => \E x \in Fns(o, t.path) : x.id = "get_root"
  /\ \A e \in EnumsOf(D) : \E i \in Items(o, "enum") :
       o.items[i].path = e.path /\ Ids(o.items[i].vs) = e.ids
  /\ \A u \in UnionsOf(D) : \E i \in Items(o, "enum") :
       /\ o.items[i].path = u.path
       /\ {[id |-> o.items[i].vs[j].id, refs |-> o.items[i].vs[j].refs] : j \in 1..Len(o.items[i].vs)} = u.mem

\* the documentation of declarations, and of their fields and members, in the code
DocsIn(vs) == [j \in 1..Len(vs) |-> [id |-> vs[j].id, doc |-> vs[j].doc]]
Documented(o, D) ==
  \A i \in TypeIdx(D) :
    LET e == D[i].e
        path == Full(D[i]) IN
    IF e.k = "table"
    THEN /\ \A j \in Items(o, "struct") : o.items[j].path = path => o.items[j].doc = e.doc
         /\ \A j \in 1..Len(e.fields) : \E x \in Fns(o, path) : x.id = e.fields[j].id /\ x.doc = e.fields[j].doc
    ELSE \E j \in Items(o, "enum") : o.items[j].path = path /\ o.items[j].doc = e.doc /\ DocsIn(o.items[j].vs) = DocsIn(e.vs)

Call(c) == [path |-> c.path, doc |-> c.doc,
            ms |-> [j \in 1..Len(c.ms) |-> [id |-> c.ms[j].id, req |-> c.ms[j].req, res |-> c.ms[j].res, doc |-> c.ms[j].doc, st |-> c.ms[j].st]]]
\* the names of methods reach the generator as Rust names
RustCalls(D) == {[c EXCEPT !.ms = [j \in 1..Len(c.ms) |-> [c.ms[j] EXCEPT !.id = Sub(c.ms[j].id)]]] : c \in CallsOf(D)}
SnakeOk(c, D) == \E i \in 1..Len(D) : D[i].e.k = "rpc" /\ Full(D[i]) = c.path /\ Len(D[i].e.ms) = Len(c.ms) /\
                   \A j \in 1..Len(c.ms) : LET x == Snake0(D[i].e.ms[j].id) IN
                     x # "" /\ Ch(x, 1) \notin DigitSet => c.ms[j].snake \in {Sub(x), Snake(D[i].e.ms[j].id)}
Calls(o, D) ==
  /\ Len(o.calls) = Cardinality(CallsOf(D))
  /\ {Call(o.calls[i]) : i \in 1..Len(o.calls)} = RustCalls(D)
  /\ \A i \in 1..Len(o.calls) : SnakeOk(o.calls[i], D)
  \* what the n-th call generated is in the module of its service's namespace
  /\ Len(o.marks) = Len(o.calls)
  /\ \A i \in 1..Len(o.calls) :
       SubSeq(o.calls[i].path, 1, Len(o.calls[i].path) - 1) \o <<"RpcMark" \o ToString(i - 1)>> \in SetOf(o.marks)

Run(i) == R.runs[i]
Tree(i) == Parse(Run(i).toks)

RunOk(i) ==
  LET p == Tree(i)
      o == Run(i).out IN
  IF Prop = "S03"
  THEN /\ o.r \in {"ok", "err"}
       /\ (p.ok => ~Unsaid(p.v)) => ((o.r = "ok") => (p.ok /\ Valid(p.v)))
  ELSE (p.ok /\ ~Unsaid(p.v)) =>
         IF Valid(p.v)
         THEN /\ o.r = "ok"
              /\ CASE Prop = "S02" -> Struct(o, Decls(p.v))
                   [] Prop = "G06" -> Calls(o, Decls(p.v))
                   [] Prop = "G08" -> Documented(o, Decls(p.v))
         ELSE Prop \in {"S02", "G08"} \/ o.r # "ok"
SameOk == Prop # "S02" \/ \A i, j \in 1..Len(R.runs) :
            (i < j /\ Run(i).out.r = "ok" /\ Run(j).out.r = "ok" /\ Tree(i).ok /\ Tree(j).ok
             /\ Meaning(Decls(Tree(i).v)) = Meaning(Decls(Tree(j).v))) => Run(i).out.code = Run(j).out.code
Conforms == (SameOk /\ \A i \in 1..Len(R.runs) : RunOk(i)) \/ (PrintT("BAD " \o ToJson([id |-> R.id, runs |-> {i \in 1..Len(R.runs) : ~RunOk(i)}])) /\ FALSE)
\* how many of the schemas are valid ones
Count == PrintT("VALID " \o ToString(LET p == Tree(1) IN IF ~p.ok THEN 0 ELSE IF Unsaid(p.v) THEN 1 ELSE IF Valid(p.v) THEN 2 ELSE 3))
===============================================================================

------------------------------- MODULE NamesTrace -----------------------------
(* Schemas given to the compiler, and whether the code it generated compiles.  *)
(* Records: [id, toks, r ("ok", "err" or other), c (compiles)].                *)
EXTENDS GenNames, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
Lanes == 16
Init == rec \in 1..Len(Trace) /\ rec <= Lanes
Next == rec + Lanes <= Len(Trace) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec

R == Trace[rec]
RecOk == LET p == Parse(R.toks)
             D == Decls(p.v)
             clear == p.ok /\ Clear(D) IN
         /\ R.r \in {"ok", "err"}
         /\ clear /\ R.r = "ok" => R.c
         /\ clear /\ Valid(p.v) /\ ~Unsaid(p.v) => R.r = "ok"
Conforms == RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE)
\* how much was said: the clear schemas
Count == LET p == Parse(R.toks) IN PrintT("CLEAR " \o (IF p.ok /\ Clear(Decls(p.v)) /\ Valid(p.v) THEN "1" ELSE "0"))
===============================================================================

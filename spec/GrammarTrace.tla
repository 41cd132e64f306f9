------------------------------ MODULE GrammarTrace ----------------------------
(* What the real parser makes of texts, given as their tokens: a well-formed   *)
(* text gives its syntax tree (S01), any other text is refused (S03).          *)
EXTENDS SchemaGrammar, Json, IOUtils
CONSTANTS Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
\* the records in lanes, which TLC's workers follow side by side
Lanes == 16
Init == rec \in 1..Len(Trace) /\ rec <= Lanes
Next == rec + Lanes <= Len(Trace) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec
R == Trace[rec]
S01 == LET p == Parse(R.toks) IN p.ok => R.out.r = "ok" /\ AstOk(p.v, R.out.ast)
S03 == /\ R.out.r \in {"ok", "err", "rest"}
       /\ R.out.r = "ok" => Parse(R.toks).ok
\* of texts of which the tokens are not known: there is an outcome
Outcome == R.out.r \in {"ok", "err", "rest"}
Judge == IF Prop = "S01" THEN S01 ELSE IF Prop = "S03" THEN S03 ELSE Outcome
Conforms == Judge \/ (PrintT("BAD " \o ToJson([id |-> R.id, why |-> R.out.r])) /\ FALSE)
===============================================================================

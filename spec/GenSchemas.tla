------------------------------ MODULE GenSchemas ------------------------------
(* The schemas of a log of generated code, resolved once.                      *)
EXTENDS GenCode, Json, IOUtils
Texts == ndJsonDeserialize(IOEnv.SCHEMAS)
Xs == TLCEval([k \in 1..Len(Texts) |-> TLCEval(Resolve(Decls(Parse(Texts[k].toks).v)))])
AllValid == \A k \in 1..Len(Texts) : LET p == Parse(Texts[k].toks) IN p.ok /\ Valid(p.v) /\ ~Unsaid(p.v)
===============================================================================

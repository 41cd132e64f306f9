------------------------------ MODULE ReaderTrace -----------------------------
(* Answers of the real reader, checked against FlatReader. *)
EXTENDS FlatReader, Json, TLC, IOUtils
CONSTANTS Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, l
vars == <<rec, l>>
R == Trace[rec]
\* one behaviour per buffer, one step per question
Init == rec \in 1..Len(Trace) /\ l = 1
Next == l < Len(R.qs) /\ l' = l + 1 /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
Judge == CASE Prop = "R01" -> SafeOk(R.b, R.al, R.qs[l], R.rs[l])
           [] Prop = "R02" -> R.rs[l].e = "PANIC" \/ AnsOk(R.b, R.al, R.qs[l], R.rs[l])
Conforms == Judge \/ (PrintT("BAD " \o ToJson([id |-> R.id, at |-> l, q |-> R.qs[l], got |-> R.rs[l]])) /\ FALSE)
===============================================================================

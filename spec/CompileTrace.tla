----------------------------- MODULE CompileTrace -----------------------------
(* Runs of the real compiler between a source and a sink, event by event.      *)
EXTENDS CompileIO, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
Lanes == 16
Init == rec \in 1..Len(Trace) /\ rec <= Lanes
Next == rec + Lanes <= Len(Trace) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec
R == Trace[rec]
\* same: what the sink took is the code's beginning (it may be anything once the sink has failed)
Res == FoldLeft(LAMBDA a, e : IF ~a.ok \/ ~May(a.s, e) THEN [a EXCEPT !.ok = FALSE] ELSE [ok |-> TRUE, s |-> Step(a.s, e), at |-> a.at + 1],
                [ok |-> TRUE, s |-> Start(R.text, R.in, R.out), at |-> 1], R.ev)
RecOk == LET r == TLCEval(Res) IN (R.same \/ r.s.fault) /\ r.ok /\ r.s.ph = "done" /\ Whole(r.s) /\ Nothing(r.s) /\ Told(r.s)
Conforms == RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id, at |-> Res.at])) /\ FALSE)
===============================================================================

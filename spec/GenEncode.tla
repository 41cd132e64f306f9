------------------------------- MODULE GenEncode ------------------------------
(* Buffers written by another implementation, this specification.              *)
EXTENDS GenSchemas
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
\* the records in lanes, which TLC's workers follow side by side
Lanes == 16
Init == rec \in 1..Len(Cases) /\ rec <= Lanes
Next == rec + Lanes <= Len(Cases) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec
Schemas == rec = 1 => AllValid
Emitted == LET c == Cases[rec] IN
  PrintT("ENC " \o ToJson([id |-> c.id, b |-> Encode(Xs[c.s], TypeAt(Xs[c.s], c.t), c.val, c.o)]))
===============================================================================

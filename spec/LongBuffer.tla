------------------------------ MODULE LongBuffer ------------------------------
(* Buffers of many kilobytes, built by the same calls on builders of different *)
(* capacities and pasts. A builder is a buffer of bytes that grows as it must; *)
(* neither how often it grew nor what it held before is to be seen in what it  *)
(* gives. The first of the builders has, from the start, all the space it will *)
(* need, and no past.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode,     \* "cases": print all cases; "trace": judge a log
          Prop, Largest   \* in kilobytes
Sizes == {n \in {1, 3, 17, 33, 65, 129, 257, 600, 2100} : n <= Largest}
Caps == {0, 1, 7, 1000, 1024, 4096, 5001, 65536}
Pasts == {"none", "same", "other", "dropped", "clone"}
Mixes == {"strings", "tables", "vectors", "all"}
Hows == <<[cap |-> 1024 * 5000, past |-> "none"]>>
RECURSIVE Seqs(_)
Seqs(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Seqs(s \ {x})
Cases == {[size |-> 1024 * n, mix |-> m, hows |-> Hows \o Seqs([cap : Caps, past : {p}])] : n \in Sizes, m \in Mixes, p \in Pasts}

Trace == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLE rec
Init == IF Mode = "trace" THEN rec \in 1..Len(Trace) ELSE rec \in Cases
Next == FALSE
Spec == Init /\ [][Next]_rec
R == Trace[rec]
RecOk == /\ Len(R.out) = Len(R.hows)
         /\ \A i \in 1..Len(R.out) :
              LET o == R.out[i] IN
              /\ o.r = "ok" /\ o.len >= R.size
              /\ Prop = "W04" => o = R.out[1]
              \* all in order: in its place, in one object only, zero between, and as written
              /\ Prop = "W02" => o.misplaced = 0 /\ o.shared = 0 /\ o.dirty = 0 /\ o.wrong = 0
Conforms == Mode = "trace" => (RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE))
Emitted == Mode = "cases" => PrintT("CASE " \o ToJson(rec))
===============================================================================

------------------------------ MODULE LongVector ------------------------------
(* Lengths and indexes have 32 bits. A vector or string with more elements     *)
(* than 16 bits count is written, in each way there is, and read, in each way  *)
(* there is, like a short one. Element i (from zero) has a value known from i; *)
(* it is asked for at places around the limits of 8 and 16 bits.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Mode    \* "cases": print all cases; "trace": judge a log
Lengths == {255, 256, 257, 65535, 65536, 65537, 70001, 131073}
Places(n) == {i \in {0, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, n \div 2, n - 2, n - 1} : i < n}
Case(n, t, how) == [n |-> n, t |-> t, how |-> how, at |-> SetToSortSeq(Places(n), <)]
Cases == {Case(n, t, how) : n \in Lengths, t \in {"u8", "u16", "i32", "f64"}, how \in {"create", "direct", "push"}}
         \cup {Case(n, t, "create") : n \in Lengths, t \in {"str", "text"}}
Value(t, i) == (i % (IF t = "text" THEN 127 ELSE 251)) + 1

Trace == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLE rec
Init == IF Mode = "trace" THEN rec \in 1..Len(Trace) ELSE rec \in Cases
Next == FALSE
Spec == Init /\ [][Next]_rec
R == Trace[rec]
Right(xs) == xs = [k \in 1..Len(R.at) |-> Value(R.t, R.at[k])]
RecOk == R.r = "ok" /\ R.len = R.n /\ R.count = R.n /\ Right(R.get) /\ Right(R.slice) /\ Right(R.nth) /\ Right(R.back)
Conforms == Mode = "trace" => (RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE))
Emitted == Mode = "cases" => PrintT("CASE " \o ToJson(rec))
===============================================================================

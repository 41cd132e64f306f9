-------------------------------- MODULE MCIter --------------------------------
(* All histories of calls on a few iterators over one vector. *)
EXTENDS VectorIter, Json, TLC
CONSTANTS MaxN, MaxLen, MaxIts, Emit
VARIABLES n, its, hist, got     \* got[w]: elements yielded by iterator w since it was made

Op(o, w, k) == [op |-> o, w |-> w, n |-> k]
Ops == UNION {{Op("next", w, 0), Op("back", w, 0), Op("nth", w, 0), Op("nth", w, 1), Op("nth", w, -1),
               Op("nthb", w, 0), Op("nthb", w, 1), Op("nthb", w, -1)} : w \in 1..Len(its)} \cup
       (IF Len(its) < MaxIts THEN {Op("clone", Len(its), 0), Op("into", 1, 0)} ELSE {})
Init == n \in 0..MaxN /\ its = <<Start(n)>> /\ hist = <<>> /\ got = <<{}>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops :
             /\ hist' = Append(hist, op)
             /\ its' = ItsAfter(its, op, n)
             /\ got' = IF Len(its') > Len(its) THEN Append(got, IF op.op = "clone" THEN got[op.w] ELSE {})
                       ELSE [got EXCEPT ![op.w] = IF Yields(its[op.w], op) = NoLoc THEN @ ELSE @ \cup {Yields(its[op.w], op)}]
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, its, hist, got>>
TypeOK == \A w \in 1..Len(its) : its[w].lo >= 0 /\ its[w].lo <= its[w].hi /\ its[w].hi <= n
\* nothing is yielded that is still to come
Once == \A w \in 1..Len(its) : \A i \in got[w] : i < its[w].lo \/ i >= its[w].hi
Emitted == (Emit /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson([n |-> n, ops |-> hist]))
===============================================================================

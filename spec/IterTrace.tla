------------------------------- MODULE IterTrace ------------------------------
(* Recorded calls on real iterators, checked against VectorIter. *)
EXTENDS VectorIter, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, l, its, bad
vars == <<rec, l, its, bad>>
R == Trace[rec]
N == IF VecLen(R.b, R.loc) = NoLoc THEN 0 ELSE VecLen(R.b, R.loc)
Op == R.ops[l]
Got == R.rs[l]
\* an answer that is an element: errors are yielded in place
ElemOk(i, r) == LET A == ElemAns(R.b, R.al, R.t, ElemLoc(R.loc, R.t, i)) IN
                \E a \in A : r.ok = a.ok /\ r.e = a.e /\ r.v = a.v /\ r.p
ItemOk(i, r) == IF i = NoLoc THEN r = None ELSE ElemOk(i, r)
AllOk(it, r) == /\ r.ok /\ Len(r.el) = Min(64, Left(it))
                /\ \A k \in 1..Len(r.el) : ElemOk(it.lo + k - 1, r.el[k])
Fits(it) ==
  CASE Op.op \in {"next", "back", "nth", "nthb"} -> ItemOk(Yields(it, Op), Got)
    [] Op.op = "last" -> Left(it) > 5000 \/ ItemOk(BackIdx(it), Got)
    [] Op.op = "len" -> IF N >= Big THEN Got.ok ELSE Got = Ok(Clamp(Left(it)))
    [] Op.op = "count" -> Got = Ok(Clamp(Min(5000, Left(it))))
    [] Op.op = "all" -> AllOk(it, Got)
    [] Op.op \in {"clone", "into", "intoref"} -> Got = Ok(<<>>)
Init == rec \in 1..Len(Trace) /\ l = 1 /\ its = <<Start(N)>> /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(R.ops)
        /\ bad' = (l > Len(R.rs) \/ ~Fits(its[Op.w]))
        /\ its' = ItsAfter(its, Op, N)
        /\ l' = l + 1
        /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
Conforms == ~bad \/ (PrintT("BAD " \o ToJson([id |-> R.id, at |-> l - 1, op |-> R.ops[l - 1],
                                              got |-> IF l - 1 <= Len(R.rs) THEN R.rs[l - 1] ELSE None])) /\ FALSE)
===============================================================================

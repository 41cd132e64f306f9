------------------------------ MODULE VectorIter ------------------------------
(* Iterators over a vector of n elements: each is the interval of elements it *)
(* has still to yield.                                                        *)
EXTENDS FlatReader

\* huge arguments are coded -1, -2, -3
Arg(n) == IF n < 0 THEN Big ELSE n
Start(n) == [lo |-> 0, hi |-> n]          \* elements lo..hi-1 are left
Left(it) == it.hi - it.lo

\* which element an operation yields (NoLoc: none), and the iterator after it
NextIdx(it) == IF Left(it) = 0 THEN NoLoc ELSE it.lo
BackIdx(it) == IF Left(it) = 0 THEN NoLoc ELSE it.hi - 1
NthIdx(it, n) == IF n >= Left(it) THEN NoLoc ELSE it.lo + n
NthBackIdx(it, n) == IF n >= Left(it) THEN NoLoc ELSE it.hi - 1 - n

After(it, op) ==
  CASE op.op = "next" -> IF Left(it) = 0 THEN it ELSE [it EXCEPT !.lo = @ + 1]
    [] op.op = "back" -> IF Left(it) = 0 THEN it ELSE [it EXCEPT !.hi = @ - 1]
    [] op.op = "nth" -> IF Arg(op.n) >= Left(it) THEN [it EXCEPT !.lo = it.hi] ELSE [it EXCEPT !.lo = @ + Arg(op.n) + 1]
    [] op.op = "nthb" -> IF Arg(op.n) >= Left(it) THEN [it EXCEPT !.hi = it.lo] ELSE [it EXCEPT !.hi = @ - Arg(op.n) - 1]
    [] OTHER -> it
Yields(it, op) ==
  CASE op.op = "next" -> NextIdx(it)
    [] op.op = "back" -> BackIdx(it)
    [] op.op = "nth" -> NthIdx(it, Arg(op.n))
    [] op.op = "nthb" -> NthBackIdx(it, Arg(op.n))
    [] op.op = "last" -> BackIdx(it)

\* the iterators after a call; n is the vector's length
ItsAfter(its, op, n) ==
  CASE op.op = "clone" -> Append(its, its[op.w])
    [] op.op \in {"into", "intoref"} -> Append(its, Start(n))
    [] OTHER -> [its EXCEPT ![op.w] = After(@, op)]
===============================================================================

------------------------------- MODULE GenTrace -------------------------------
(* What code generated from schemas did, against what it must do.              *)
(*  wr: a buffer it wrote; rd: what it read of a value it (or this             *)
(*  specification) wrote; by: what it read of any bytes; en: the values of an  *)
(*  enum; vt: the slots of a table; bare: a table without any field written;   *)
(*  hold: what it read of a buffer held in several ways; help: the functions   *)
(*  of an enum.                                                                *)
EXTENDS GenSchemas
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
\* the records in lanes, which TLC's workers follow side by side
Lanes == 16
Init == rec \in 1..Len(Trace) /\ rec <= Lanes
Next == rec + Lanes <= Len(Trace) /\ rec' = rec + Lanes
Spec == Init /\ [][Next]_rec
Schemas == rec = 1 => AllValid

R == Trace[rec]
X == Xs[R.s]
T == TypeAt(X, R.t)
Ok == R.out.r = "ok"
Wrote == Ok /\ LET loc == F!RootLoc(R.out.b, R.sp) IN
               loc # F!NoLoc /\ WireOk(R.out.b, X, T, loc, R.val)
               /\ (R.sp => F!U32(R.out.b, 0) = Len(R.out.b) - 4)
Read == Ok /\ ReadBack(Xs[R.ws], TypeAt(Xs[R.ws], R.wt), X, T, R.val, R.out.d)
Said == LET loc == F!RootLoc(R.b, R.sp)
            s == Dump(R.b, X, T, loc, R.dep) IN
        IF loc = F!NoLoc THEN R.out.r = "e"
        ELSE \/ R.out.r = "e" /\ ~F!In(R.b, loc, 4)
             \/ Ok /\ Same(X, T, s, R.out.d)
\* the companion of a union has one member more, for none
Wanted == (IF X.d[T].k = "union" THEN <<[id |-> "None", v |-> <<0>>]>> ELSE <<>>)
          \o [j \in 1..Len(X.d[T].m) |-> [id |-> X.d[T].m[j].id, v |-> X.d[T].m[j].v]]
Values == /\ Ok /\ R.out.z = F!Size(X.d[T].t)
          /\ Len(R.out.m) = Len(Wanted)
          /\ \A j \in 1..Len(Wanted) : \E k \in 1..Len(R.out.m) :
               R.out.m[k].id = Wanted[j].id /\ R.out.m[k].v = Wanted[j].v /\ R.out.m[k].c = Wanted[j].v /\ R.out.m[k].name = Wanted[j].id
          /\ \A j \in 1..Len(R.out.p) :
               LET p == R.out.p[j]
                   hit == {k \in 1..Len(Wanted) : Wanted[k].v = p.v} IN
               IF hit = {} THEN p.r = "e" ELSE p.r = "v" /\ \E k \in hit : p.id = Wanted[k].id
Slots == Ok /\ LET want == FoldLeft(LAMBDA acc, f : acc \o (IF IsUnionField(f.ty) THEN <<f.s, f.s + 2>> ELSE <<f.s>>), <<>>, Tab(X, T)) IN
                   R.out.vt = want
Bare == LET req == \E j \in 1..Len(Tab(X, T)) : Tab(X, T)[j].req IN
        IF req THEN R.out.r = "panic" ELSE Ok
\* the type that a union's value says it is of is that of the member held
RECURSIVE TypesOk(_, _), TypesAt(_, _, _)
TypesAt(ty, n, v) ==
  IF n > 0 THEN \A k \in 1..Len(v.e) : v.e[k].r = "v" => TypesAt(ty, n - 1, v.e[k].v)
  ELSE ty.k = "tab" => TypesOk(ty.i, v)
TypesOk(i, d) ==
  \A j \in 1..Len(d.f) :
    LET f == Tab(X, i)[j]
        a == d.f[j] IN
    a.r = "v" => IF IsUnionField(f.ty) THEN a.v.g = a.v.m /\ TypesOk(Member(X, f.ty.i, a.v.m).i, a.v.v) ELSE TypesAt(f.ty, f.ty.n, a.v)
Held == Ok /\ (\A k \in 1..Len(R.out.a) : R.out.a[k] = R.out.a[1]) /\ TypesOk(T, R.out.d)
\* the members by name, and the first of them
Helps == /\ Ok /\ R.out.df = Wanted[1].id
         /\ \A k \in 1..Len(R.out.m) : R.out.m[k].name = R.out.m[k].id
RecOk == CASE R.k = "wr" -> Wrote [] R.k = "rd" -> Read [] R.k = "by" -> Said [] R.k = "en" -> Values [] R.k = "vt" -> Slots [] R.k = "bare" -> Bare
           [] R.k = "hold" -> Held [] R.k = "help" -> Helps
Conforms == RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id, kind |-> R.k])) /\ FALSE)
===============================================================================

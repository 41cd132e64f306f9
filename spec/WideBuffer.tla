------------------------------ MODULE WideBuffer ------------------------------
(* A buffer has at most two gigabytes: its offsets say no more. Asking for a   *)
(* larger one, at once or bit by bit, is refused; one that fits is built and   *)
(* read like a small one. A case is a builder of a capacity, blocks of bytes   *)
(* written one after the other, and a table that refers to all of them.        *)
(* Sizes are pairs <<n \div 65536, n % 65536>>.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode,    \* "cases": print all cases; "trace": judge a log
          Prop
Max == <<32768, 0>>
Plus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div 65536, (a[2] + b[2]) % 65536>>
Below(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* a block takes its length, its bytes, at most one zero byte and some padding
Least(n) == Plus(n, <<0, 4>>)
Most(n) == Plus(n, <<0, 4 + 1 + 16>>)

Sizes == [tiny |-> <<0, 100>>, gig |-> <<16384, 0>>, most |-> <<16383, 60000>>, part |-> <<14000, 7>>, over |-> <<32768, 1>>, more |-> <<4000, 0>>]
Blk(k, n) == [k |-> k, n |-> Sizes[n]]
Case(cap, bs) == [cap |-> cap, blocks |-> bs]
Cases == {Case(Max, <<Blk("s", "tiny")>>), Case(<<32768, 1>>, <<>>), Case(<<49152, 0>>, <<>>), Case(<<32767, 65535>>, <<>>),
          Case(<<0, 0>>, <<Blk("s", "over")>>), Case(<<0, 64>>, <<Blk("v", "tiny"), Blk("v", "over")>>),
          Case(<<0, 0>>, <<Blk("s", "gig"), Blk("v", "most"), Blk("v", "more")>>),
          Case(<<20000, 0>>, <<Blk("v", "part"), Blk("s", "part"), Blk("v", "more"), Blk("s", "gig")>>),
          Case(<<20000, 0>>, <<Blk("s", "part"), Blk("s", "part"), Blk("v", "tiny")>>)}

Trace == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLE rec
Init == IF Mode = "trace" THEN rec \in 1..Len(Trace) ELSE rec \in Cases
Next == FALSE
Spec == Init /\ [][Next]_rec
R == Trace[rec]
StepOk(i) ==
  LET s == R.steps[i]
      n == R.blocks[i].n IN
  /\ s.r \in {"ok", "panic"}
  /\ ~Below(Plus(s.used, Least(n)), Max) => s.r = "panic"
  /\ Below(Plus(s.used, Most(n)), Max) => s.r = "ok"
EndOk ==
  LET most == Plus(R.used, <<0, 200>>) IN
  /\ Below(most, Max) => R.end = "ok"
  /\ R.end = "ok" => R.got = [i \in 1..Len(R.blocks) |-> R.blocks[i].n]
RecOk == /\ R.new = (IF Below(R.cap, Max) THEN "ok" ELSE "panic")
         /\ R.new = "ok" =>
              /\ \A i \in 1..Len(R.steps) : StepOk(i)
              /\ IF \A i \in 1..Len(R.steps) : R.steps[i].r = "ok" THEN Len(R.steps) = Len(R.blocks) /\ EndOk ELSE R.end = "none"
              /\ R.again
Conforms == Mode = "trace" => (RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE))
Emitted == Mode = "cases" => PrintT("CASE " \o ToJson(rec))
===============================================================================

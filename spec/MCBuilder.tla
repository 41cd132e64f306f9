------------------------------ MODULE MCBuilder -------------------------------
(* All builder behaviours of a small scope, as states of the specification.   *)
(* Invariants: finished buffers are valid wire format, read back as the graph *)
(* that was written, and share vtables exactly. The history of calls of every *)
(* finished behaviour is printed, to be run on the real builder.              *)
EXTENDS FlatBuilder, Json, Randomization

CONSTANTS Scope,       \* which calls
          MaxObj,      \* objects per buffer
          MaxFld,      \* fields per table
          MaxOps,
          Emit         \* print the scripts

VARIABLES G, C, hist

V(t, x) == IF t = "bool" THEN <<x % 2>>
           ELSE IF t = "f32" THEN (CASE x = 0 -> <<0,0,0,0>> [] x = 1 -> <<0,0,0,128>> [] OTHER -> <<1,0,192,127>>)
           ELSE IF t = "f64" THEN (CASE x = 0 -> <<0,0,0,0,0,0,0,0>> [] x = 1 -> <<0,0,0,0,0,0,0,128>>
                                     [] OTHER -> <<0,0,0,0,0,0,248,127>>)
           ELSE [i \in 1..Size(t) |-> IF x = 0 THEN 0 ELSE IF x = 1 THEN i ELSE 255 - i]
Elems(t, n) == [i \in 1..n |-> V(t, i % 3)]

Hs == 1..Len(G.hs)
TabHs == {h \in Hs : G.hs[h].k = "tab"}
Free(s) == ~\E i \in 1..Len(G.cur) : G.cur[i].s = s

\* --- the calls of each scope
Strs == CASE Scope = "tab" -> {<<97>>}
          [] Scope = "mix" -> {<<>>, <<97, 98, 99>>}
          [] Scope = "vt" -> {}
          [] Scope = "sim" -> {<<>>, <<97>>, <<195, 169>>, <<97, 98, 99>>, <<0, 97, 98, 99, 100>>}
VecSpecs == CASE Scope = "tab" -> {<<"u64", 1>>}
              [] Scope = "mix" -> {<<"u8", 3>>, <<"u64", 1>>, <<"u16", 0>>}
              [] Scope = "vt" -> {}
              [] Scope = "sim" -> {"bool", "u8", "i16", "u32", "i64", "f32", "f64"} \X {0, 1, 3}
FldSpecs == CASE Scope = "tab" -> {<<"u8", 1>>, <<"u16", 1>>, <<"u64", 1>>, <<"f32", 1>>}
              [] Scope = "mix" -> {<<"u8", 1>>, <<"u64", 0>>}
              [] Scope = "vt" -> {<<"u8", 0>>, <<"u8", 1>>, <<"u32", 1>>}
              [] Scope = "sim" -> {"bool", "u8", "i16", "u32", "i64", "f32", "f64"} \X {0, 1, 2}
Slots == CASE Scope = "tab" -> {4, 6, 8}
           [] Scope = "mix" -> {4, 8}
           [] Scope = "vt" -> {4, 6}
           [] Scope = "sim" -> {4, 6, 8, 12, 40}
Fins == CASE Scope = "tab" -> {<<"plain", <<>>>>, <<"sized", <<>>>>, <<"sized", <<65, 66, 67, 68>>>>}
          [] Scope = "mix" -> {<<"min", <<>>>>, <<"plain", <<65, 66, 67, 68>>>>}
          [] Scope = "vt" -> {<<"plain", <<>>>>}
          [] Scope = "sim" -> {"plain", "sized"} \X {<<>>, <<65, 66, 67, 68>>}

StrOps == {[op |-> "cstr", s |-> s] : s \in Strs} \cup
          (IF Scope = "sim" THEN {[op |-> "cbstr", s |-> s] : s \in Strs \cup {<<255, 0, 128>>}} ELSE {})
VecOps == {[op |-> "cvec", t |-> x[1], e |-> Elems(x[1], x[2])] : x \in VecSpecs} \cup
          {[op |-> "cvecd", t |-> x[1], e |-> Elems(x[1], x[2])] : x \in {y \in VecSpecs : y[1] # "bool" /\ Scope # "tab"}}
RefOps == IF Scope \in {"tab", "vt"} THEN {}
          ELSE {[op |-> "cvech", hs |-> w] : w \in {<<h>> : h \in Hs} \cup {<<h, g>> : h, g \in Hs}} \cup
               {[op |-> "cvecs", ss |-> s] : s \in {<<>>, <<<<97>>>>, <<<<98, 99>>, <<>>>>}}
SVecOps == IF Scope \in {"tab", "vt"} THEN {}
           ELSE {[op |-> "svec", t |-> x[1], n |-> x[2]] : x \in VecSpecs} \cup
                {[op |-> "svec", t |-> "off", n |-> n] : n \in IF Hs = {} THEN {0} ELSE {0, 2}}
IdleOps == IF Len(G.hs) >= MaxObj THEN {}
           ELSE StrOps \cup VecOps \cup RefOps \cup SVecOps \cup {[op |-> "stab"]}
FldOps == {[op |-> "slot", s |-> s, t |-> x[1], v |-> V(x[1], x[2]), d |-> V(x[1], 0)] : s \in {z \in Slots : Free(z)}, x \in FldSpecs} \cup
          (IF Scope \in {"sim", "mix"} THEN {[op |-> "slota", s |-> s, t |-> x[1], v |-> V(x[1], x[2])] : s \in {z \in Slots : Free(z)}, x \in FldSpecs} ELSE {}) \cup
          {[op |-> "sloth", s |-> s, h |-> h] : s \in {z \in Slots : Free(z)}, h \in Hs}
TabOps == (IF Len(G.cur) >= MaxFld THEN {} ELSE FldOps) \cup {[op |-> "etab"]}
VOpen == hist[CHOOSE i \in 1..Len(hist) : hist[i].op = "svec" /\ \A j \in (i + 1)..Len(hist) : hist[j].op \in {"push", "pushh"}]
VectorOps == IF Len(G.cur) < VOpen.n
             THEN IF VOpen.t = "off" THEN {[op |-> "pushh", h |-> h] : h \in Hs}
                  ELSE {[op |-> "push", t |-> VOpen.t, v |-> V(VOpen.t, 1)]}
             ELSE {[op |-> "evec", t |-> VOpen.t, n |-> VOpen.n]}
FinOps == {[op |-> "fin", h |-> h, kind |-> x[1], id |-> x[2]] : h \in {z \in TabHs : Scope = "sim" \/ z = Len(G.hs)}, x \in Fins}

Ops == IF G.fin THEN {}
       ELSE CASE G.mode = "idle" -> (IF Len(hist) < MaxOps THEN IdleOps ELSE {}) \cup FinOps
              [] G.mode = "table" -> IF Len(hist) < MaxOps THEN TabOps ELSE {[op |-> "etab"]}
              [] G.mode = "vector" -> VectorOps

Init == G = GInit /\ C = BInit /\ hist = <<>>
\* (simulation looks at a few of the calls that are possible)
Pick == IF Scope = "sim" THEN RandomSubset(Min(3, Cardinality(Ops)), Ops) ELSE Ops
Next == \E op \in Pick :
          /\ Legal(G, op)
          /\ G' = Apply(G, op)
          /\ C' = BStep(C, G, op)
          /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<G, C, hist>>

------------------------------------------------------------------------------
\* W02
ModelWire == G.fin => WireValid(C.buf, C.ws, G.hs, G.last)
\* W03
ModelShare == G.fin => SharedExactly(C.buf, C.ws, G.hs)
ModelCount == ~G.fin /\ VtReadable(C.buf, C.ws, G.hs) => Len(C.vts) = DistinctVts(C.buf, C.ws, G.hs, Len(G.hs))
\* W01, W06: the format's reader finds the graph in the model's bytes
RECURSIVE Finds(_, _, _)
Finds(b, p, h) ==
  LET o == G.hs[h] IN
  CASE o.k = "str" -> IF o.bs THEN SliceAns(b, 0, 1, p) = {Ok(o.v)} ELSE StrAns(b, p) = {Ok(o.v)}
    [] o.k = "vec" -> VecLen(b, p) = Len(o.e)
                      /\ \A i \in 1..Len(o.e) : VecGetAns(b, 0, o.t, p, i - 1) = {Ok(o.e[i])}
                      /\ SliceAns(b, 0, Size(o.t), p) = {Ok(Flat(o.e))}
    [] o.k = "strs" -> VecLen(b, p) = Len(o.s)
                       /\ \A i \in 1..Len(o.s) : VecGetAns(b, 0, "str", p, i - 1) = {Ok(o.s[i])}
    [] o.k = "refs" -> VecLen(b, p) = Len(o.hs)
                       /\ \A i \in 1..Len(o.hs) : LET q == FollowU(b, p + 4 * i) IN q # NoLoc /\ Finds(b, q, o.hs[i])
    [] o.k = "tab" ->
         /\ \A i \in 1..Len(o.f) :
              LET f == o.f[i]
                  x == SlotOf(b, p, f.s) IN
              IF f.elided THEN x.st = "none"
              ELSE /\ x.st = "at"
                   /\ IF f.k = "sc" THEN ReadScalar(b, f.t, x.o) = Ok(f.v)
                      ELSE LET q == FollowU(b, x.o) IN q # NoLoc /\ Finds(b, q, f.h)
         /\ \A s \in {z \in 4..48 : z % 2 = 0} :
              (~\E i \in 1..Len(o.f) : o.f[i].s = s) => SlotOf(b, p, s).st = "none"
ModelRound == G.fin => LET r == RootLoc(C.buf, G.last.kind = "sized") IN r # NoLoc /\ Finds(C.buf, r, G.root)

Emitted == (Emit /\ G.fin) => PrintT("SCRIPT " \o ToJson(hist))
===============================================================================

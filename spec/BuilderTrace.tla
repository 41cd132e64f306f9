------------------------------ MODULE BuilderTrace ----------------------------
(* Executions of the real builder, checked against the specification. Every   *)
(* record of the log is a script of calls with what was observed after each,  *)
(* the final bytes, and what the real reader found in them, for every         *)
(* distinct outcome over capacities and pasts. A behaviour of this module     *)
(* replays one outcome through the actions of FlatGraph; Prop says which      *)
(* property is judged. Judged is what the code did, not how: no invariant     *)
(* compares the code's bytes with the model's.                                *)
EXTENDS FlatBuilder, Json, IOUtils

CONSTANTS Prop, Layout
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec, out, l,
          G,        \* FlatGraph's state
          ws,       \* revlocs the code handed out
          cnt,      \* after each call since the last reset: objects, vtables the code counts
          bad       \* what the code did wrong, if anything
vars == <<rec, out, l, G, ws, cnt, bad>>

R == Trace[rec]
O == R.out[out]
Op == R.ops[l]
Obs == O.obs[l]

Init == /\ rec \in 1..Len(Trace)
        /\ out \in 1..Len(Trace[rec].out)
        /\ l = 1 /\ G = GInit /\ ws = <<>> /\ cnt = <<>> /\ bad = ""

IsNew(op) == op.op \in Creates \cup {"etab", "evec"}

Verdict(op, r) ==
  IF r = "ok" THEN
       (IF Legal(G, op) THEN "" ELSE "illegal call accepted: ")
  ELSE IF r = "panic" THEN
       (IF Legal(G, op) /\ ~MayRefuse(G, op) THEN "legal call refused: " ELSE "")
  ELSE IF r = "skip" /\ G.mode = "broken" /\ op.op # "reset" THEN ""
  ELSE r

Step ==
  /\ bad = ""
  /\ l <= Len(R.ops) /\ l <= Len(O.obs)
  /\ l' = l + 1
  /\ bad' = (LET v == Verdict(Op, Obs.r) IN IF v = "" THEN "" ELSE v \o Op.op)
  /\ G' = IF G.mode = "broken" /\ Op.op # "reset" THEN G
          ELSE IF Obs.r = "ok" /\ Legal(G, Op) THEN Apply(G, Op)
          ELSE [G EXCEPT !.mode = "broken"]
  /\ ws' = IF Op.op = "reset" THEN <<>>
           ELSE IF Obs.r = "ok" /\ IsNew(Op) THEN Append(ws, Obs.w) ELSE ws
  /\ cnt' = IF Op.op = "reset" THEN <<<<0, Obs.n>>>>
            ELSE IF Obs.r = "ok" THEN Append(cnt, <<Len(ws'), IF Op.op = "fin" THEN -1 - Obs.n ELSE Obs.n>>) ELSE cnt
  /\ UNCHANGED <<rec, out>>
Spec == Init /\ [][Step]_vars

AtEnd == bad = "" /\ l > Len(R.ops)
Complete == AtEnd /\ G.fin /\ G.mode = "idle"

------------------------------------------------------------------------------
IsTab(h) == h > 0 /\ G.hs[h].k = "tab"
W01 == /\ (bad # "" => ~\E x \in {"legal call refused: " \o R.ops[i].op : i \in 1..Len(R.ops)} \cup {"views-differ"} : x = bad)
       /\ (AtEnd /\ Len(O.obs) > Len(R.ops) => FALSE)
       /\ (Complete /\ IsTab(G.root)) =>
            /\ O.f
            /\ O.tree.k = "root"
            /\ \A i \in 1..3 : O.tree.locs[i] = O.tree.locs[1] /\ O.tree.locs[i] >= 0
            /\ O.tree.idents = IdentAns(G.last.id)
            /\ O.tree.to = Tree(G.hs, G.root)
W02 == Complete => WireValid(O.b, ws, G.hs, G.last)
CountOk(b, c) == IF c[2] < 0 THEN c[2] = -1
                 ELSE c[2] = DistinctVts(b, ws, G.hs, c[1])
W03 == (AtEnd /\ G.mode = "idle") =>
         /\ SharedExactly(O.b, ws, G.hs)
         /\ \A i \in 1..Len(cnt) : CountOk(O.b, cnt[i])
         \* a shared vtable suits each of its tables
         /\ Complete => \A h \in Tabs(G.hs) : TabWire(O.b, ws, Loc(O.b, ws, h), G.hs[h])
         /\ (Complete /\ IsTab(G.root)) => (O.tree.k = "root" /\ O.tree.to = Tree(G.hs, G.root))
W04 == l = 1 => Len(R.out) = 1
W05 == bad = "" /\ (AtEnd /\ G.mode # "broken" => (O.f <=> G.fin))
W06 == /\ (bad # "" => bad \notin {"legal call refused: req", "illegal call accepted: req", "legal call refused: slot",
                                    "legal call refused: slota", "legal call refused: etab", "legal call refused: fin"})
       /\ (Complete /\ IsTab(G.root)) => (O.tree.k = "root" /\ O.tree.to = Tree(G.hs, G.root))

Judge == CASE Prop = "W01" -> W01 [] Prop = "W02" -> W02 [] Prop = "W03" -> W03
           [] Prop = "W04" -> W04 [] Prop = "W05" -> W05 [] Prop = "W06" -> W06

\* Not judged, only reported: does the code lay objects out as the model does?
RECURSIVE ModelBytes(_, _, _)
ModelBytes(c, g, i) == IF i > Len(R.ops) THEN c.buf
                       ELSE ModelBytes(BStep(c, g, R.ops[i]), Apply(g, R.ops[i]), i + 1)
Drift == (Layout /\ Complete) =>
           (\/ ModelBytes(BInit, GInit, 1) = O.b
            \/ PrintT("DRIFT " \o ToString(R.id)))

Conforms == Judge \/ (PrintT("BAD " \o ToJson([id |-> R.id, out |-> out, at |-> l, why |-> bad])) /\ FALSE)
===============================================================================

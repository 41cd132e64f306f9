------------------------------ MODULE MCProtocol ------------------------------
(* Every sequence of builder calls up to a length, legal or not, over one     *)
(* call of each kind; only the calls whose meaning in the current state is    *)
(* left open are missing (see DESIGN.md). Prints the sequences, to be run on  *)
(* the real builder; a sequence goes on after a refused call with reset only. *)
EXTENDS FlatGraph, Json, TLC
CONSTANTS MaxLen, Emit
VARIABLES G, hist, refused

Hs == 1..Len(G.hs)
Tabs0 == {h \in Hs : G.hs[h].k = "tab"}
Anywhere ==
  {[op |-> "cstr", s |-> <<97>>], [op |-> "cbstr", s |-> <<>>],
   [op |-> "cvec", t |-> "u16", e |-> <<<<1, 2>>>>], [op |-> "cvecd", t |-> "u64", e |-> <<>>],
   [op |-> "cvecs", ss |-> <<>>], [op |-> "cvech", hs |-> <<>>],
   [op |-> "stab"], [op |-> "svec", t |-> "u8", n |-> 1]}
Slot4 == {[op |-> "slot", s |-> 4, t |-> "u8", v |-> <<1>>, d |-> <<0>>],
          [op |-> "slot", s |-> 4, t |-> "u8", v |-> <<0>>, d |-> <<0>>],
          [op |-> "slota", s |-> 4, t |-> "u32", v |-> <<0, 0, 0, 0>>],
          [op |-> "slota", s |-> 6, t |-> "u8", v |-> <<9>>]} \cup
         (IF Hs = {} THEN {} ELSE {[op |-> "sloth", s |-> 4, h |-> 1]})
\* with an elided write in between the outcome of a second write is left open
Open(op) == op.op \in {"slot", "slota", "sloth"} /\ G.mode = "table"
            /\ \E i \in 1..Len(G.cur) : G.cur[i].s = op.s /\ (G.cur[i].elided \/ Elided(op))
Fins == IF Hs = {} THEN {}
        ELSE {[op |-> "fin", h |-> Len(G.hs), kind |-> "plain", id |-> <<>>],
              [op |-> "fin", h |-> Len(G.hs), kind |-> "sized", id |-> <<65, 66, 67, 68>>],
              [op |-> "fin", h |-> 1, kind |-> "plain", id |-> <<65, 66, 67>>],
              [op |-> "fin", h |-> 1, kind |-> "sized", id |-> <<65, 66, 67, 68, 69>>],
              [op |-> "fin", h |-> 1, kind |-> "min", id |-> <<>>]}
Ops ==
  IF G.mode = "broken" THEN {[op |-> "reset"]}
  ELSE {[op |-> "reset"], [op |-> "data"]} \cup Fins \cup
       (IF G.fin THEN {}
        ELSE Anywhere \cup
             (CASE G.mode = "idle" -> Slot4 \cup {[op |-> "etab"], [op |-> "evec", t |-> "u8", n |-> 0]} \cup
                                      {[op |-> "req", h |-> h, s |-> s] : h \in Tabs0, s \in {4, 6}}
                [] G.mode = "table" -> Slot4 \cup {[op |-> "etab"]}
                [] G.mode = "vector" -> IF Len(G.cur) = 0 THEN {[op |-> "push", t |-> "u8", v |-> <<7>>]}
                                        ELSE {[op |-> "evec", t |-> "u8", n |-> 1]}))

Init == G = GInit /\ hist = <<>> /\ refused = FALSE
Next == /\ Len(hist) < MaxLen
        /\ \E op \in {o \in Ops : ~Open(o)} :
             /\ G' = GStep(G, op)
             /\ hist' = Append(hist, op)
             /\ refused' = (G'.mode = "broken")
Spec == Init /\ [][Next]_<<G, hist, refused>>

\* the protocol's own invariants
TypeOK == /\ G.mode \in {"idle", "table", "vector", "broken"}
          /\ (G.fin /\ G.mode # "broken") => G.mode = "idle"
          /\ G.mode = "idle" => G.cur = <<>>
\* reset always leads back to the initial state
ResetInit == (hist # <<>> /\ hist[Len(hist)].op = "reset") => G = GInit
Emitted == (Emit /\ hist # <<>> /\ (Len(hist) = MaxLen \/ refused)) => PrintT("SCRIPT " \o ToJson(hist))
===============================================================================

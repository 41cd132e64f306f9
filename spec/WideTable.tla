------------------------------ MODULE WideTable -------------------------------
(* Vtable entries have 16 bits. A table that takes more bytes than they can    *)
(* say, or a slot that lies beyond them, cannot be written: ending such a      *)
(* table is misuse and is refused; any table that fits is written and read     *)
(* like a small one. The cases lie around both limits; a case is a table of n  *)
(* fields of one type, at slots 4, 6, ... and the last of them at slot last,   *)
(* written after pre bytes of something else.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode,    \* "cases": print all cases; "trace": judge a log
          Prop
Width == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8]
Max == 65535
\* bytes of the table, without and with the most padding there may be
Least(c) == 4 + c.n * Width[c.t]
Most(c) == Least(c) + 16
VtLen(c) == c.last + 2
MustRefuse(c) == Least(c) > Max \/ VtLen(c) > Max
MustTake(c) == Most(c) <= Max /\ VtLen(c) <= Max
Value(i) == ((i - 1) % 251) + 1

Dense(t, n, p) == [t |-> t, n |-> n, last |-> 2 + 2 * n, pre |-> p]
Cases == {Dense(t, n, p) : t \in {"u16", "u32", "u64"}, n \in {1}, p \in {0}}
         \cup {Dense("u64", n, p) : n \in 8185..8195, p \in {0, 3, 5}}
         \cup {Dense("u32", n, p) : n \in 16376..16387, p \in {0, 1}}
         \cup {Dense("u16", n, 0) : n \in 32758..32766}
         \cup {Dense("u8", n, 0) : n \in 32764..32766}
         \cup {[t |-> t, n |-> 3, last |-> l, pre |-> p] : t \in {"u8", "u32", "u64"}, l \in {65528, 65530, 65532, 65534}, p \in {0, 1}}
         \cup {[t |-> "u64", n |-> n, last |-> l, pre |-> 2] : n \in {8188, 8193}, l \in {65530, 65532, 65534}}

Trace == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLE rec
Init == IF Mode = "trace" THEN rec \in 1..Len(Trace) ELSE rec \in Cases
Next == FALSE
Spec == Init /\ [][Next]_rec
R == Trace[rec]
Refused == R.r = "panic"
ReadsBack == Len(R.got) = R.n /\ \A i \in 1..R.n : R.got[i] = Value(i)
Fits == /\ R.vlen = VtLen(R) /\ R.olen >= Least(R) /\ R.olen <= Most(R)
        /\ R.loc >= 0 /\ R.loc % 4 = 0 /\ R.loc + R.olen <= R.len
        /\ R.vt >= 0 /\ R.vt % 2 = 0 /\ R.vt + R.vlen <= R.len
        /\ (R.vt + R.vlen <= R.loc \/ R.loc + R.olen <= R.vt)
RecOk == CASE Prop = "W01" -> (MustTake(R) => R.r = "ok") /\ (R.r = "ok" => ReadsBack)
           [] Prop = "W02" -> (R.r = "ok" => Fits)
           [] Prop = "W05" -> /\ R.r \in {"ok", "panic"} /\ R.again
                              /\ MustRefuse(R) => Refused
                              /\ MustTake(R) => ~Refused
Conforms == Mode = "trace" => (RecOk \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE))
Emitted == Mode = "cases" => PrintT("CASE " \o ToJson(rec))
===============================================================================

------------------------------- MODULE MCReader -------------------------------
(* Small buffers, well-formed and not, assembled part by part from every      *)
(* combination of interesting values, and all the questions asked of them.    *)
(* The reader's meaning is checked for totality and consistency here; the     *)
(* buffers are printed, to be read by the real reader.                        *)
EXTENDS FlatReader, Json, TLC
CONSTANTS Scope, Emit

VARIABLES b, part

W16 == {0, 2, 4, 5, 6, 8, 10, 255, 65535}
\* parts of each scope: a sequence of sets of chunks
Parts ==
  CASE Scope = "tab" ->     \* root, vtable, table with one inline scalar
         <<{LE32(8), LE32(12), LE32(14), LE32(2), <<255, 255, 255, 255>>, <<0, 0, 0, 128>>},
           {LE16(x) \o LE16(8) : x \in {0, 2, 4, 5, 6, 8, 65535}},
           {LE16(x) : x \in {0, 3, 4, 6, 65535}} \cup {LE16(4) \o LE16(7)},
           {LE32S(x) : x \in {-8, 4, 6, 8, 12, 100}} \cup {<<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<1>>, <<>>},
           {<<2, 200, 3, 1>>, <<9>>, <<>>, <<0, 7, 255, 255, 255, 255, 255, 255, 255>>}>>
    [] Scope = "ref" ->     \* a table with one reference to a string or vector
         <<{LE32(10)},
           {LE16(6) \o LE16(8) \o LE16(4)},
           {LE32S(6)},
           {LE32(x) : x \in {0, 4, 5, 6, 8, 9, 2000}} \cup {<<252, 255, 255, 255>>, <<255, 255, 255, 255>>},
           {LE32(x) : x \in {0, 1, 2, 3, 4, 300}} \cup {<<255, 255, 255, 255>>, <<254, 255, 255, 127>>, <<2, 0>>},
           {<<>>, <<0>>, <<97, 0>>, <<195, 169, 0>>, <<169, 195, 0>>, <<97, 98, 0>>, <<97, 98, 99, 100, 0, 0>>,
            <<224, 160, 128, 0>>, <<224, 159, 128, 0>>, <<237, 160, 128, 0>>, <<240, 144, 128, 128>>,
            <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<4, 0, 0, 0, 1, 0, 0, 0, 97, 0>>}>>
    [] Scope = "raw" ->     \* any few bytes
         [i \in 1..6 |-> {<<>>, <<0>>, <<1>>, <<4>>, <<255>>}]

Init == b = <<>> /\ part = 0
Next == /\ part < Len(Parts)
        /\ \E c \in Parts[part + 1] : b' = b \o c
        /\ part' = part + 1
Spec == Init /\ [][Next]_<<b, part>>
Ready == part = Len(Parts)

------------------------------------------------------------------------------
Q(k, sp, s, t, i, d) == [k |-> k, sp |-> sp, path |-> <<>>, s |-> s, t |-> t, i |-> i, j |-> 0, d |-> d, at |-> 0]
TabQs == {Q("loc", sp, 0, "", 0, <<>>) : sp \in BOOLEAN} \cup
         {Q("sc", FALSE, s, t, 0, <<>>) : s \in {4, 6, 0, 5}, t \in {"u8", "u16", "u32", "u64", "bool"}} \cup
         {Q("sc", FALSE, 4, "u16", 0, <<7, 7>>), Q("sc", FALSE, 8, "f64", 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)} \cup
         {Q("vt", FALSE, s, "get", 0, <<>>) : s \in {0, 1, 4, 6}} \cup
         {Q("vt", FALSE, 0, "get_field", i, <<>>) : i \in {0, 1, 2}} \cup
         {Q("vt", FALSE, 0, t, 0, <<>>) : t \in {"num_bytes", "num_fields", "inline", "as_bytes"}} \cup
         {Q("id", sp, 0, "", 0, <<8, 0, 6, 0>>) : sp \in BOOLEAN}
RefQs == {Q(k, FALSE, 4, "u8", 0, <<>>) : k \in {"str", "bs", "vlen", "vempty", "vv"}} \cup
         {Q(k, FALSE, 4, t, 0, <<>>) : k \in {"sl", "vss"}, t \in {"u8", "u16", "u32", "f64"}} \cup
         {Q("vget", FALSE, 4, t, i, <<>>) : t \in {"u8", "u16", "bool", "u64", "str", "tab"}, i \in {0, 1, 2}} \cup
         {Q(k, FALSE, 4, t, 3, <<>>) : k \in {"viter", "vback"}, t \in {"u8", "u32", "str", "bs"}}
RawQs == {Q("loc", sp, 0, "", 0, <<>>) : sp \in BOOLEAN} \cup {Q("sc", FALSE, 4, "u8", 0, <<>>)} \cup
         {[Q("fol", FALSE, 0, t, 0, <<>>) EXCEPT !.at = a] : t \in {"voff", "uoff", "soff", "skipid", "ident", "start"}, a \in {0, 1, 3}} \cup
         {[Q("rsat", FALSE, 0, t, 0, <<>>) EXCEPT !.at = a] : t \in {"u8", "i32", "f64"}, a \in {0, 2, -1}} \cup
         {[Q("rs", FALSE, 0, t, 0, <<>>) EXCEPT !.at = a] : t \in {"i16", "u64"}, a \in {0, 1, 6}}
Qs == CASE Scope = "tab" -> TabQs [] Scope = "ref" -> RefQs [] Scope = "raw" -> RawQs

NotIter == {q \in Qs : q.k \notin {"viter", "vback"}}
\* every question has an answer, and only one unless something is wrong with the bytes
Total == Ready => \A q \in NotIter : QueryAns(b, 0, q) # {}
Definite == Ready => \A q \in NotIter : \A x, y \in QueryAns(b, 0, q) : (x.ok /\ y.ok) => x = y
\* appending bytes never changes an answer that was in bounds
Stable == Ready => \A q \in NotIter :
            \A x \in QueryAns(b, 0, q) : x.ok => x \in QueryAns(b \o <<13, 13>>, 0, q)
Emitted == (Emit /\ Ready) => PrintT("BUF " \o ToJson(b))
ASSUME Emit => PrintT("QS " \o ToJson(Qs))
===============================================================================

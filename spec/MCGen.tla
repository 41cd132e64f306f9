-------------------------------- MODULE MCGen ---------------------------------
(* A table grows by fields; a writer that knows some of them writes a value,   *)
(* with some fields left out, in one of the ways the format allows; a reader   *)
(* that knows more or fewer fields reads it. What it reads is what was         *)
(* written (G02, G05). The schemas, values and buffers are replayed on the     *)
(* code generated from the schemas.                                            *)
EXTENDS GenCode, Json
CONSTANTS MaxF, Emit, Part, Harm     \* fields; print the cases; which fields there are; damage too

W(s) == [t |-> "w", s |-> s]
P_(s) == [t |-> "p", s |-> s]
I(neg, ds) == [t |-> "i", neg |-> neg, base |-> 10, d |-> ds]
Fl(neg, ds, fr) == [t |-> "f", neg |-> neg, kind |-> "fin", base |-> 10, d |-> ds, fr |-> fr, x |-> 0]
Req == <<P_("("), W("required"), P_(")")>>
Vec(t) == <<P_("[")>> \o t \o <<P_("]")>>
Eq == <<P_("=")>>

\* every spelling of every scalar type; an enum of every type it may have
Bases == <<"byte", "int8", "ubyte", "uint8", "short", "int16", "ushort", "uint16", "int", "int32", "uint", "uint32", "long", "int64", "ulong", "uint64">>
Spelled == Bases \o <<"bool", "float", "float32", "double", "float64">>
Hex(neg, ds) == [t |-> "i", neg |-> neg, base |-> 16, d |-> ds]
Fs_(n) == [i \in 1..n |-> 15]
MaxOf(b) == Hex(FALSE, IF Signed(b) THEN <<7>> \o Fs_(Bits(b) \div 4 - 1) ELSE Fs_(Bits(b) \div 4))
LeastOf(b) == IF Signed(b) THEN Hex(TRUE, <<8>> \o [i \in 1..(Bits(b) \div 4 - 1) |-> 0]) ELSE Hex(FALSE, <<0>>)
EnumDecl(b) == <<W("enum"), W("En" \o b), P_(":"), W(b), P_("{"), W("Least"), P_("="), LeastOf(b), P_(","), W("More"), P_(","),
                 W("Most"), P_("="), MaxOf(b), P_(","), W("Ten"), P_("="), I(FALSE, <<1, 0>>), P_(","), W("Eleven"), P_("}")>>
EnumDecls == FoldLeft(LAMBDA acc, b : acc \o EnumDecl(b), <<>>, Bases)

\* the types beside the one that grows
Aux0 == <<W("table"), W("Sub"), P_("{"), W("a"), P_(":"), W("short"), P_(";"), W("s"), P_(":"), W("string"), P_(";"), P_("}"),
         W("table"), W("Oth"), P_("{"), W("z"), P_(":"), W("ulong"), P_("="), I(FALSE, <<7>>), P_(";"), P_("}"),
         W("enum"), W("Ee"), P_(":"), W("short"), P_("{"), W("Neg"), P_("="), I(TRUE, <<2>>), P_(","), W("Nil"), P_("="), I(FALSE, <<0>>), P_(","),
             W("Pos"), P_("="), I(FALSE, <<3, 0, 0>>), P_("}"),
         W("union"), W("Uu"), P_("{"), W("Sub"), P_(","), W("Oth"), P_("="), I(FALSE, <<9>>), P_("}")>>

Aux == IF Part = "types" THEN EnumDecls ELSE Aux0
AuxN == Len(Decls(Parse(Aux).v))

T0 == [f |-> <<>>, raw |-> <<>>]
SubV(a, s) == [f |-> <<[id |-> "a", v |-> a], [id |-> "s", v |-> s]>>, raw |-> <<>>]
OthV(z) == [f |-> <<[id |-> "z", v |-> z]>>, raw |-> <<>>]
\* the fields there are: type and the rest, and values to write
A(t, rest, vs) == [toks |-> t \o rest, vs |-> vs, req |-> FALSE]
R(t, vs) == [toks |-> t \o Req, vs |-> vs, req |-> TRUE]
Scalars == <<
  A(<<W("byte")>>, <<>>, <<<<0>>, <<128>>, <<127>>>>),
  A(<<W("ushort")>>, Eq \o <<I(FALSE, <<5, 1, 3>>)>>, <<<<1, 2>>, <<0, 0>>, <<255, 255>>>>),
  A(<<W("int32")>>, Eq \o <<I(TRUE, <<2>>)>>, <<<<254, 255, 255, 255>>, <<0, 0, 0, 128>>>>),
  A(<<W("long")>>, <<>>, <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 200>>>>),
  A(<<W("bool")>>, Eq \o <<W("true")>>, <<<<0>>, <<1>>>>),
  A(<<W("float")>>, Eq \o <<Fl(FALSE, <<1, 5>>, 1)>>, <<<<0, 0, 192, 63>>, <<0, 0, 0, 128>>, <<1, 0, 192, 127>>>>),
  A(<<W("double")>>, <<>>, <<<<0, 0, 0, 0, 0, 0, 0, 128>>, <<24, 45, 68, 84, 251, 33, 9, 192>>>>),
  A(<<W("Ee")>>, <<>>, <<"Neg", "Nil", "Pos">>),
  A(<<W("Ee")>>, Eq \o <<W("Pos")>>, <<"Neg", "Pos">>),
  R(<<W("uint")>>, <<<<0, 0, 0, 0>>, <<9, 8, 7, 6>>>>)>>
Refs == <<
  A(<<W("string")>>, <<>>, <<<<>>, <<104, 105>>, <<195, 169, 195, 169, 33>>>>),
  R(<<W("string")>>, <<<<>>, <<65>>>>),
  A(<<W("Sub")>>, <<>>, <<T0, SubV(<<255, 255>>, <<120>>)>>),
  R(<<W("Oth")>>, <<T0, OthV(<<7, 0, 0, 0, 0, 0, 0, 0>>), OthV(<<7, 0, 0, 0, 0, 0, 0, 1>>)>>),
  A(Vec(<<W("ubyte")>>), <<>>, <<<<>>, <<<<1>>, <<2>>, <<255>>>>>>),
  A(Vec(<<W("double")>>), <<>>, <<<<>>, <<<<1, 2, 3, 4, 5, 6, 7, 8>>>>>>),
  A(Vec(<<W("bool")>>), <<>>, <<<<<<1>>, <<0>>, <<1>>>>>>),
  A(Vec(<<W("Ee")>>), <<>>, <<<<"Pos", "Neg">>>>),
  A(Vec(<<W("string")>>), <<>>, <<<<>>, <<<<97>>, <<>>, <<98, 99>>>>>>),
  R(Vec(<<W("Sub")>>), <<<<>>, <<SubV(<<1, 0>>, <<>>), T0>>>>),
  A(Vec(Vec(<<W("short")>>)), <<>>, <<<<>>, <<<<<<1, 0>>, <<2, 0>>>>, <<>>>>>>),
  A(<<W("Uu")>>, <<>>, <<[m |-> "Sub", v |-> <<T0>>], [m |-> "Oth", v |-> <<OthV(<<1, 1, 1, 1, 1, 1, 1, 1>>)>>], [m |-> "None", v |-> <<>>], [m |-> "Sub", v |-> <<>>]>>),
  R(<<W("Uu")>>, <<[m |-> "Oth", v |-> <<T0>>], [m |-> "Sub", v |-> <<SubV(<<2, 1>>, <<66>>)>>]>>)>>
SizeOf(b) == IF b = "bool" THEN 1 ELSE IF b \in {"float", "float32"} THEN 4 ELSE IF b \in {"double", "float64"} THEN 8 ELSE Bits(b) \div 8
Pat(b) == IF b = "bool" THEN <<1>> ELSE [i \in 1..SizeOf(b) |-> (17 * i + 100) % 256]
Top(b) == IF b = "bool" THEN <<1>> ELSE [i \in 1..SizeOf(b) |-> IF i = SizeOf(b) THEN 128 ELSE 0]
TwoOf(b) == <<Pat(b), Zeros(SizeOf(b)), Top(b)>>
SomeDef(b) == IF b = "bool" THEN <<W("true")>> ELSE IF b \in {"float", "float32", "double", "float64"} THEN <<Fl(TRUE, <<2, 5>>, 1)>>
              ELSE IF Signed(b) THEN <<LeastOf(b)>> ELSE <<MaxOf(b)>>
DefBytes(b) == IF b = "bool" THEN <<1>> ELSE IF SizeOf(b) = 4 /\ b \in {"float", "float32"} THEN <<0, 0, 32, 192>>
               ELSE IF b \in {"double", "float64"} THEN <<0, 0, 0, 0, 0, 0, 4, 192>>
               ELSE [i \in 1..SizeOf(b) |-> IF ~Signed(b) THEN 255 ELSE IF i = SizeOf(b) THEN 128 ELSE 0]
TypeFields(b) == <<A(<<W(b)>>, <<>>, TwoOf(b)), A(<<W(b)>>, Eq \o SomeDef(b), <<Pat(b), Zeros(SizeOf(b)), DefBytes(b)>>), R(<<W(b)>>, <<Pat(b), Zeros(SizeOf(b))>>),
                   A(Vec(<<W(b)>>), <<>>, <<<<Pat(b), Zeros(SizeOf(b)), Pat(b)>>>>), A(Vec(Vec(<<W(b)>>)), <<>>, <<<<<<Pat(b)>>, <<Pat(b), Top(b)>>>>>>)>>
EnumFields(b) == LET e == <<W("En" \o b)>> IN
  <<A(e, <<>>, <<"Least", "Most", "Ten">>), A(e, Eq \o <<W("Most")>>, <<"Most", "More", "Least">>), A(e, Eq \o <<W("Ten")>>, <<"Eleven", "Ten">>), R(e, <<"Least", "Most">>),
    A(Vec(e), <<>>, <<<<"Least", "Most", "Eleven">>>>), A(Vec(Vec(e)), <<>>, <<<<<<"Most">>, <<"Least", "More">>>>>>)>>
Types_ == FoldLeft(LAMBDA acc, b : acc \o TypeFields(b), <<>>, Spelled) \o FoldLeft(LAMBDA acc, b : acc \o EnumFields(b), <<>>, Bases)
Fs == CASE Part = "scalars" -> Scalars [] Part = "refs" -> Refs [] Part = "types" -> Types_ [] OTHER -> Scalars \o Refs

FName(k) == "f" \o ToString(k)
FieldToks(fs, n) == FoldLeft(LAMBDA acc, k : acc \o <<W(FName(k)), P_(":")>> \o Fs[fs[k]].toks \o <<P_(";")>>, <<>>, [k \in 1..n |-> k])
Decl(fs, n) == <<W("table"), W("Main"), P_("{")>> \o FieldToks(fs, n) \o <<P_("}")>>
\* the meaning of the versions, computed once for each prefix of a state's fields
Meant(fs, n) == Resolve(Decls(Parse(Aux \o Decl(fs, n)).v))
Main == AuxN + 1

Styles == {[rev |-> FALSE, trim |-> TRUE, after |-> FALSE, force |-> FALSE, junk |-> 0, sp |-> FALSE],
           [rev |-> TRUE, trim |-> FALSE, after |-> TRUE, force |-> TRUE, junk |-> 170, sp |-> TRUE]}

VARIABLES fs, ph, w, pick, o, hurt
vars == <<fs, ph, w, pick, o, hurt>>
Init == fs = <<>> /\ ph = "grow" /\ w = 0 /\ pick = <<>> /\ hurt = <<>> /\ o = CHOOSE s \in Styles : ~s.rev
Grow == ph = "grow" /\ Len(fs) < MaxF /\ \E k \in 1..Len(Fs) : fs' = Append(fs, k) /\ UNCHANGED <<ph, w, pick, o, hurt>>
\* pick: for each field the writer knows, which value it writes, 0 for none
Write == /\ ph = "grow" /\ ph' = "wrote"
         /\ \E n \in {0, Len(fs)} \cup (IF Len(fs) > 0 THEN {Len(fs) - 1} ELSE {}) : w' = n
         /\ \E p \in [1..w' -> 0..4] : (\A k \in 1..w' : (IF Fs[fs[k]].req THEN 1 ELSE 0) <= p[k] /\ p[k] <= Len(Fs[fs[k]].vs)) /\ pick' = p
         /\ o' \in Styles
         /\ UNCHANGED <<fs, hurt>>
\* one slot of the last field is not there, or holds something else
HurtV == {<<>>, <<0>>, <<1>>, <<2>>, <<9>>, <<255>>, <<0, 0, 0, 0>>, <<12, 0, 0, 0>>, <<255, 255, 255, 255>>, <<7, 0, 0, 0, 0, 0, 0, 0>>}
Hurt == /\ ph = "wrote" /\ ph' = "hurt" /\ w = Len(fs) /\ w > 0
        /\ \E v \in HurtV : LET f == Meant(fs, w).d[Main].f[w] IN
             \E s \in {f.s} \cup (IF IsUnionField(f.ty) THEN {f.s + 2} ELSE {}) : hurt' = <<[s |-> s, v |-> v]>>
        /\ \A k \in 1..w : pick[k] = F!Min(2, Len(Fs[fs[k]].vs))
        /\ UNCHANGED <<fs, w, pick, o>>
Next == Grow \/ Write \/ (Harm /\ Hurt)
Spec == Init /\ [][Next]_vars

Value == [f |-> FoldLeft(LAMBDA acc, k : IF pick[k] = 0 THEN acc ELSE Append(acc, [id |-> FName(k), v |-> Fs[fs[k]].vs[pick[k]]]),
                       <<>>, [k \in 1..w |-> k]), raw |-> hurt]
RootLoc(b) == F!RootLoc(b, o.sp)
\* a reader of any version: the writer's, newer, or older
Readers == {n \in {0, w - 1, w, Len(fs)} : n >= 0 /\ n <= Len(fs)}
Reads == ph = "wrote" =>
  LET X == Meant(fs, w)
      b == Encode(X, Main, Value, o) IN
  \A n \in Readers :
    LET Y == Meant(fs, n)
        d == Dump(b, Y, Main, RootLoc(b), 6) IN
    ReadBack(X, Main, Y, Main, Value, d)
\* the other writer's buffers are laid out as the format wants it (where padding is zero)
Laid == (ph = "wrote" /\ o.junk = 0) =>
  LET X == Meant(fs, w)
      b == Encode(X, Main, Value, o) IN WireOk(b, X, Main, RootLoc(b), Value)
\* a field whose slots are not there is absent; the fields before it are read as ever
Hurts == ph = "hurt" =>
  LET X == Meant(fs, w)
      b == Encode(X, Main, Value, o)
      d == Dump(b, X, Main, RootLoc(b), 6)
      v0 == [Value EXCEPT !.raw = <<>>]
      b0 == Encode(X, Main, v0, o)
      d0 == Dump(b0, X, Main, RootLoc(b0), 6)
      f == X.d[Main].f[w] IN
  /\ \A k \in 1..(w - 1) : d.f[k].r = d0.f[k].r
  /\ hurt[1].v = <<>> =>
       IF IsUnionField(f.ty) THEN d.f[w].r = (IF f.req THEN "e" ELSE "n") ELSE d.f[w].r = Absent(f).r
  /\ (IsUnionField(f.ty) /\ hurt[1].s = f.s /\ Len(hurt[1].v) = 1 /\ hurt[1].v[1] \notin {0, 1, 9}) => d.f[w].r = "e" /\ d.f[w].tr = "e"
Emitted == (Emit /\ ph \in {"wrote", "hurt"}) =>
  LET X == Meant(fs, w) IN
  PrintT((IF ph = "hurt" THEN "HURT " ELSE "CASE ") \o ToJson([fs |-> fs, w |-> w, val |-> Value, sp |-> o.sp, b |-> Encode(X, Main, Value, o)]))
EmittedToks == (Emit /\ fs = <<>>) => PrintT("TOKS " \o ToJson([aux |-> Aux, f |-> [k \in 1..Len(Fs) |-> Fs[k].toks]]))
===============================================================================

------------------------------ MODULE FlatBuilder -----------------------------
(* The builder as it is designed: a buffer that grows towards its front, the  *)
(* alignment seen so far, the fields of the table under construction and the  *)
(* vtables written. One step per public call, byte for byte.                  *)
EXTENDS FlatWire

BInit == [buf |-> <<>>, ma |-> 0, flds |-> <<>>, vts |-> <<>>, ws |-> <<>>, start |-> 0]

Used(C) == Len(C.buf)
Pad(n, a) == IF a = 0 THEN 0 ELSE (a - (n % a)) % a
Align(C, n, a) == [C EXCEPT !.ma = Max(@, a), !.buf = Zeros(Pad(Len(@) + n, a)) \o @]
Put(C, bytes) == [C EXCEPT !.buf = bytes \o @]
PushBytes(C, v) == Put(Align(C, Len(v), Len(v)), v)
PushRef(C, w) == LET D == Align(C, 4, 4) IN Put(D, LE32(4 + Used(D) - w))
Done(C) == [C EXCEPT !.ws = Append(@, Len(C.buf))]

PutStr(C, s) == PushBytes(Put(PushBytes(Align(C, Len(s) + 1, 4), <<0>>), s), LE32(Len(s)))

RECURSIVE PushAll(_, _, _)      \* elements e[1..n], last first
PushAll(C, e, n) == IF n = 0 THEN C ELSE PushAll(PushBytes(C, e[n]), e, n - 1)
RECURSIVE PushRefs(_, _, _)
PushRefs(C, w, n) == IF n = 0 THEN C ELSE PushRefs(PushRef(C, w[n]), w, n - 1)

PutVec(C, t, e) == PushBytes(PushAll(Align(C, Len(e) * Size(t), Max(Size(t), 4)), e, Len(e)), LE32(Len(e)))
PutRefs(C, w) == PushBytes(PushRefs(Align(C, 4 * Len(w), 4), w, Len(w)), LE32(Len(w)))
RECURSIVE PutStrs(_, _, _, _)
PutStrs(C, s, n, w) == IF n = 0 THEN PutRefs(C, w)
                       ELSE LET D == PutStr(C, s[n]) IN PutStrs(D, s, n - 1, <<Used(D)>> \o w)

\* --- tables
VtImage(C, objloc) ==
  LET slots == {C.flds[i].s : i \in 1..Len(C.flds)}
      n == IF slots = {} THEN 4 ELSE 2 + CHOOSE m \in slots : \A x \in slots : x <= m
      off(s) == LET i == CHOOSE i \in 1..Len(C.flds) : C.flds[i].s = s IN objloc - C.flds[i].off
      word(k) == IF k = 0 THEN n
                 ELSE IF k = 1 THEN objloc - C.start
                 ELSE IF 2 * k \in slots THEN off(2 * k) ELSE 0 IN
  [i \in 1..n |-> LET k == (i - 1) \div 2 IN (IF i % 2 = 1 THEN word(k) % 256 ELSE word(k) \div 256)]
SameVt(C, w, img) == LET p == Used(C) - w IN U16(C.buf, p) = Len(img) /\ Sub(C.buf, p, Len(img)) = img

EndTable(C) ==
  LET D == PushBytes(C, <<240, 240, 240, 240>>)
      objloc == Used(D)
      img == VtImage(D, objloc)
      old == {i \in 1..Len(D.vts) : SameVt(D, D.vts[i], img)}
      E == IF old # {} THEN D
           ELSE LET F == Put(D, img) IN [F EXCEPT !.vts = Append(@, Len(F.buf))]
      use == IF old # {} THEN D.vts[CHOOSE i \in old : \A j \in old : j <= i] ELSE Len(E.buf)
      p == Len(E.buf) - objloc
      so == LE32S(use - objloc) IN
  [E EXCEPT !.buf = [i \in 1..Len(@) |-> IF i > p /\ i <= p + 4 THEN so[i - p] ELSE @[i]],
            !.flds = <<>>, !.ws = Append(@, objloc)]

Finish(C, op) ==
  LET sized == op.kind = "sized"
      D == Align([C EXCEPT !.vts = <<>>], 4 + (IF sized THEN 4 ELSE 0) + Len(op.id), C.ma)
      E == PushRef(Put(D, op.id), C.ws[op.h]) IN
  IF sized THEN PushBytes(E, LE32(Len(E.buf))) ELSE E

\* The effect of a legal call on the bytes.
BStep(C, G, op) ==
  CASE op.op \in {"cstr", "cbstr"} -> Done(PutStr(C, op.s))
    [] op.op \in {"cvec", "cvecd"} -> Done(PutVec(C, op.t, op.e))
    [] op.op = "cvecs" -> Done(PutStrs(C, op.ss, Len(op.ss), <<>>))
    [] op.op = "cvech" -> Done(PutRefs(C, [i \in 1..Len(op.hs) |-> C.ws[op.hs[i]]]))
    [] op.op = "svec" -> LET z == IF op.t = "off" THEN 4 ELSE Size(op.t) IN Align(C, op.n * z, Max(z, 4))
    [] op.op = "push" -> PushBytes(C, op.v)
    [] op.op = "pushh" -> PushRef(C, C.ws[op.h])
    [] op.op = "evec" -> Done(PushBytes(C, LE32(op.n)))
    [] op.op = "stab" -> [C EXCEPT !.start = Len(C.buf)]
    [] op.op \in {"slot", "slota"} ->
         IF Elided(op) THEN C
         ELSE LET D == PushBytes(C, op.v) IN [D EXCEPT !.flds = Append(@, [s |-> op.s, off |-> Len(D.buf)])]
    [] op.op = "sloth" ->
         LET D == PushRef(C, C.ws[op.h]) IN [D EXCEPT !.flds = Append(@, [s |-> op.s, off |-> Len(D.buf)])]
    [] op.op = "etab" -> EndTable(C)
    [] op.op = "fin" -> Finish(C, op)
    [] op.op = "reset" -> BInit
    [] op.op \in {"req", "data"} -> C
===============================================================================

------------------------------- MODULE FlatWire -------------------------------
(* The FlatBuffers wire format as a predicate on bytes: the bytes b are a     *)
(* well-formed encoding of the object graph hs, where object h ends (counting *)
(* from the end of the buffer, as the builder hands it out) at revloc ws[h].  *)
(* It says nothing about the order in which objects are laid out.             *)
EXTENDS FlatGraph, TLC

Loc(b, ws, h) == Len(b) - ws[h]

\* --- the regions of one object: [lo, hi, nm]
Rg(lo, n) == <<lo, lo + n>>

VtLoc(b, loc) == loc - S32(b, loc)

FieldSize(f) == IF f.k = "ref" THEN 4 ELSE Size(f.t)
FieldOff(b, loc, s) == U16(b, VtLoc(b, loc) + s)

\* a string at loc with content v
StrWire(b, loc, v) ==
  /\ loc >= 0 /\ loc % 4 = 0
  /\ In(b, loc, 4 + Len(v) + 1)
  /\ U32(b, loc) = Len(v)
  /\ At(b, loc + 4 + Len(v)) = 0
StrReg(loc, v) == {Rg(loc, 4 + Len(v) + 1)}

\* a reference stored at p leads to q
RefWire(b, p, q) == p % 4 = 0 /\ In(b, p, 4) /\ U32(b, p) > 0 /\ p + U32(b, p) = q

StrsTarget(b, loc, i) == LET p == loc + 4 + 4 * (i - 1) IN p + U32(b, p)

VtWire(b, loc) ==
  LET vt == VtLoc(b, loc) IN
  /\ vt >= 0 /\ vt % 2 = 0 /\ In(b, vt, 4)
  /\ U16(b, vt) >= 4 /\ U16(b, vt) % 2 = 0
  /\ In(b, vt, U16(b, vt))
  /\ U16(b, vt + 2) >= 4
  /\ In(b, loc, U16(b, vt + 2))

TabWire(b, ws, loc, o) ==
  /\ loc >= 0 /\ loc % 4 = 0 /\ In(b, loc, 4)
  /\ VtWire(b, loc)
  /\ LET vt == VtLoc(b, loc)
         vn == U16(b, vt)
         on == U16(b, vt + 2)
         live == {i \in 1..Len(o.f) : Written(o.f[i])} IN
     \* what was written is there, aligned, inside of the table
     /\ \A i \in live :
          LET f == o.f[i]
              off == FieldOff(b, loc, f.s) IN
          /\ f.s + 2 <= vn
          /\ off >= 4 /\ off + FieldSize(f) <= on
          /\ (loc + off) % FieldSize(f) = 0
          /\ f.k = "ref" => RefWire(b, loc + off, Loc(b, ws, f.h))
     \* nothing else is
     /\ \A s \in 4..(vn - 1) :
          (s % 2 = 0 /\ ~\E i \in live : o.f[i].s = s) => U16(b, vt + s) = 0

\* fields and soffset of a table
TabFine(b, loc, o) ==
  {Rg(loc, 4)} \cup
  {Rg(loc + FieldOff(b, loc, o.f[i].s), FieldSize(o.f[i])) : i \in {j \in 1..Len(o.f) : Written(o.f[j])}}
TabFields(o) == Cardinality({j \in 1..Len(o.f) : Written(o.f[j])})

ObjWire(b, ws, h, o) ==
  LET loc == Loc(b, ws, h) IN
  CASE o.k = "str" -> StrWire(b, loc, o.v)
    [] o.k = "vec" -> /\ loc >= 0 /\ loc % 4 = 0 /\ (loc + 4) % Size(o.t) = 0
                      /\ In(b, loc, 4 + Len(o.e) * Size(o.t))
                      /\ U32(b, loc) = Len(o.e)
    [] o.k = "refs" -> /\ loc >= 0 /\ loc % 4 = 0 /\ In(b, loc, 4 + 4 * Len(o.hs))
                       /\ U32(b, loc) = Len(o.hs)
                       /\ \A i \in 1..Len(o.hs) : RefWire(b, loc + 4 * i, Loc(b, ws, o.hs[i]))
    [] o.k = "strs" -> /\ loc >= 0 /\ loc % 4 = 0 /\ In(b, loc, 4 + 4 * Len(o.s))
                       /\ U32(b, loc) = Len(o.s)
                       /\ \A i \in 1..Len(o.s) : StrWire(b, StrsTarget(b, loc, i), o.s[i])
    [] o.k = "tab" -> TabWire(b, ws, loc, o)

\* coarse regions: objects and vtables; no two of them overlap
ObjReg(b, ws, h, o) ==
  LET loc == Loc(b, ws, h) IN
  CASE o.k = "str" -> StrReg(loc, o.v)
    [] o.k = "vec" -> {Rg(loc, 4 + Len(o.e) * Size(o.t))}
    [] o.k = "refs" -> {Rg(loc, 4 + 4 * Len(o.hs))}
    [] o.k = "strs" -> {Rg(loc, 4 + 4 * Len(o.s))} \cup
                       UNION {StrReg(StrsTarget(b, loc, i), o.s[i]) : i \in 1..Len(o.s)}
    [] o.k = "tab" -> {Rg(loc, U16(b, VtLoc(b, loc) + 2)),
                       Rg(VtLoc(b, loc), U16(b, VtLoc(b, loc)))}
\* fine regions: the bytes that mean something
ObjFine(b, ws, h, o) ==
  LET loc == Loc(b, ws, h) IN
  IF o.k = "tab" THEN TabFine(b, loc, o) \cup {Rg(VtLoc(b, loc), U16(b, VtLoc(b, loc)))}
  ELSE ObjReg(b, ws, h, o)

Disjoint(rs) == \A r, s \in rs : r = s \/ r[2] <= s[1] \/ s[2] <= r[1]

HeaderLen(fin) == (IF fin.kind = "sized" THEN 4 ELSE 0) + 4 + Len(fin.id)
HeaderWire(b, ws, fin) ==
  LET r == IF fin.kind = "sized" THEN 4 ELSE 0 IN
  /\ In(b, 0, HeaderLen(fin))
  /\ RefWire(b, r, Loc(b, ws, fin.h))
  /\ Sub(b, r + 4, Len(fin.id)) = fin.id
  /\ fin.kind = "sized" => U32(b, 0) = Len(b) - 4

\* distinct tables are distinct objects even if their bytes are equal
DistinctTables(ws, hs) ==
  \A i, j \in 1..Len(hs) : (i < j /\ hs[i].k = "tab" /\ hs[j].k = "tab") => ws[i] # ws[j]

WireValid(b, ws, hs, fin) ==
  /\ HeaderWire(b, ws, fin)
  /\ \A h \in 1..Len(hs) : ObjWire(b, ws, h, hs[h])
  /\ DistinctTables(ws, hs)
  /\ LET H == {Rg(0, HeaderLen(fin))}
         coarse == H \cup UNION {ObjReg(b, ws, h, hs[h]) : h \in 1..Len(hs)}
         fine == H \cup UNION {ObjFine(b, ws, h, hs[h]) : h \in 1..Len(hs)} IN
     /\ Disjoint(coarse)
     /\ \A h \in 1..Len(hs) :
          hs[h].k = "tab" =>
            /\ Cardinality(TabFine(b, Loc(b, ws, h), hs[h])) = TabFields(hs[h]) + 1
            /\ Disjoint(TabFine(b, Loc(b, ws, h), hs[h]))
     /\ \A i \in 0..(Len(b) - 1) :
          b[i + 1] # 0 => \E r \in fine : r[1] <= i /\ i < r[2]

------------------------------------------------------------------------------
(* Vtable sharing, on the same bytes. *)
VtBytes(b, loc) == Sub(b, VtLoc(b, loc), U16(b, VtLoc(b, loc)))
Tabs(hs) == {h \in 1..Len(hs) : hs[h].k = "tab"}
VtReadable(b, ws, hs) == \A h \in Tabs(hs) : LET l == Loc(b, ws, h) IN
                            l >= 0 /\ In(b, l, 4) /\ VtLoc(b, l) >= 0 /\ In(b, VtLoc(b, l), 2)
                            /\ In(b, VtLoc(b, l), U16(b, VtLoc(b, l)))
SharedExactly(b, ws, hs) ==
  /\ VtReadable(b, ws, hs)
  /\ \A x, y \in Tabs(hs) :
       LET lx == Loc(b, ws, x)
           ly == Loc(b, ws, y) IN
       VtBytes(b, lx) = VtBytes(b, ly) <=> VtLoc(b, lx) = VtLoc(b, ly)
\* how many different vtables the first n objects have
DistinctVts(b, ws, hs, n) == Cardinality({VtBytes(b, Loc(b, ws, h)) : h \in {x \in Tabs(hs) : x <= n}})
===============================================================================

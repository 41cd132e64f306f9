------------------------------ MODULE FlatReader ------------------------------
(* What the FlatBuffers format says about arbitrary bytes: every read         *)
(* operation as a total function of a buffer. Answers are records             *)
(* [ok, e, p, v]: ok and p (present) and v (bytes), or an error e. Where more *)
(* than one error describes the same bytes, the answer is a set.              *)
EXTENDS Bytes

Ok(v) == [ok |-> TRUE, e |-> "", p |-> TRUE, v |-> v]
None == [ok |-> TRUE, e |-> "", p |-> FALSE, v |-> <<>>]
Err(e) == [ok |-> FALSE, e |-> e, p |-> FALSE, v |-> <<>>]
OOB == Err("OutOfBounds")

In(b, p, n) == p >= 0 /\ p + n <= Len(b)
Clamp(n) == LE32(Min(n, Big))

\* a location, or -1 for out of bounds
NoLoc == -1

ReadScalar(b, t, p) ==
  IF ~In(b, p, Size(t)) THEN OOB
  ELSE IF t = "bool" THEN Ok(<<IF At(b, p) = 0 THEN 0 ELSE 1>>)
  ELSE Ok(Sub(b, p, Size(t)))

FollowU(b, p) == IF In(b, p, 4) THEN p + U32(b, p) ELSE NoLoc
FollowV(b, p) == IF In(b, p, 2) THEN p + U16(b, p) ELSE NoLoc
FollowS(b, p) == IF ~In(b, p, 4) THEN NoLoc
                 ELSE IF p - S32(b, p) < 0 THEN NoLoc ELSE p - S32(b, p)

RootLoc(b, sized) == FollowU(b, IF sized THEN 4 ELSE 0)
VTableLoc(b, loc) == FollowS(b, loc)

\* --- vtables
VTBytes(b, vt) == IF In(b, vt, 2) THEN U16(b, vt) ELSE NoLoc
\* [st |-> "oob" | "none" | "at", o]
VTSlot(b, vt, s) ==
  IF ~In(b, vt, 2) THEN [st |-> "oob", o |-> 0]
  ELSE IF s >= U16(b, vt) THEN [st |-> "none", o |-> 0]
  ELSE IF ~In(b, vt + s, 2) THEN [st |-> "oob", o |-> 0]
  ELSE [st |-> "at", o |-> U16(b, vt + s)]

\* where slot s of the table at loc is stored
SlotOf(b, loc, s) ==
  LET vt == VTableLoc(b, loc) IN
  IF vt = NoLoc THEN [st |-> "oob", o |-> 0]
  ELSE LET x == VTSlot(b, vt, s) IN
       IF x.st # "at" THEN x
       ELSE IF x.o = 0 THEN [st |-> "none", o |-> 0]
       ELSE [st |-> "at", o |-> loc + x.o]

\* --- terminals; the set of admissible answers
ScalarAns(b, t, p) == {ReadScalar(b, t, p)}

StrAns(b, p) ==
  IF ~In(b, p, 4) THEN {OOB}
  ELSE LET n == U32(b, p) IN
       IF ~In(b, p + 4, n + 1) THEN {OOB}
       ELSE LET z == At(b, p + 4 + n) = 0
                u == Utf8Valid(b, p + 5, p + 4 + n) IN
            IF z /\ u THEN {Ok(Sub(b, p + 4, n))}
            ELSE (IF z THEN {} ELSE {Err("NonNullTerminatedString")})
                 \cup (IF u THEN {} ELSE {Err("NonUtf8String")})

\* a slice of scalars of the given size, for a buffer at address al modulo 8
SliceAns(b, al, sz, p) ==
  IF ~In(b, p, 4) THEN {OOB}
  ELSE LET n == U32(b, p)
           inb == In(b, p + 4, n * sz)
           aligned == (al + p + 4) % sz = 0 IN
       (IF inb /\ aligned THEN {Ok(Sub(b, p + 4, n * sz))} ELSE {})
       \cup (IF inb THEN {} ELSE {OOB})
       \cup (IF aligned THEN {} ELSE {Err("Unaligned")})
       \cup (IF inb /\ ~aligned /\ n = 0 THEN {Ok(<<>>)} ELSE {})

\* the location of an object; whether it is checked at once or at first use
\* is left open
LocAns(b, p) == {Ok(Clamp(p))} \cup (IF In(b, p, 4) THEN {} ELSE {OOB})

ElemSize(t) == IF t \in Types THEN Size(t) ELSE 4
\* an element stored at p
ElemAns(b, al, t, p) ==
  IF t \in Types THEN ScalarAns(b, t, p)
  ELSE LET q == FollowU(b, p) IN
       IF q = NoLoc THEN {OOB}
       ELSE CASE t = "str" -> StrAns(b, q)
              [] t = "bs" -> SliceAns(b, al, 1, q)
              [] t = "tab" -> LocAns(b, q)

ElemLoc(v, t, i) == v + 4 + i * ElemSize(t)

\* --- vectors at p
VecLen(b, p) == IF In(b, p, 4) THEN U32(b, p) ELSE NoLoc

VecGetAns(b, al, t, p, i) ==
  LET n == VecLen(b, p) IN
  IF n = NoLoc THEN {OOB}
  ELSE IF i >= n THEN {None}
  ELSE ElemAns(b, al, t, ElemLoc(p, t, i))

\* --- queries (see the executor): a path of tables, then one terminal
RefAns(b, al, q, p) ==     \* terminal of a reference stored in a slot, target p
  CASE q.k = "str" -> StrAns(b, p)
    [] q.k = "bs" -> SliceAns(b, al, 1, p)
    [] q.k \in {"sl", "vss"} -> SliceAns(b, al, Size(q.t), p)
    [] q.k = "vlen" -> {IF In(b, p, 4) THEN Ok(Sub(b, p, 4)) ELSE OOB}
    [] q.k = "vempty" -> {IF ~In(b, p, 4) THEN OOB
                          ELSE Ok(<<IF VecLen(b, p) = 0 THEN 1 ELSE 0>>)}
    [] q.k = "vget" -> VecGetAns(b, al, q.t, p, q.i)
    [] q.k = "vv" ->
         LET n == VecLen(b, p) IN
         IF n = NoLoc THEN {OOB}
         ELSE IF q.i >= n THEN {None}
         ELSE LET w == FollowU(b, p + 4 + 4 * q.i) IN
              IF w = NoLoc THEN {OOB} ELSE VecGetAns(b, al, "u16", w, q.j)

VtAns(b, loc, q) ==
  LET vt == VTableLoc(b, loc)
      n == VTBytes(b, vt)
      nf == Max(0, (n \div 2) - 2) IN
  IF vt = NoLoc THEN {OOB}
  ELSE IF q.t = "inline" THEN
       {IF In(b, vt + 2, 2) THEN Ok(Clamp(U16(b, vt + 2))) ELSE OOB}
  ELSE IF n = NoLoc THEN {OOB}
  ELSE CASE q.t = "num_bytes" -> {Ok(Clamp(n))}
         [] q.t = "num_fields" -> {Ok(Clamp(nf))}
         [] q.t = "get" -> {IF q.s >= n THEN None
                            ELSE IF In(b, vt + q.s, 2) THEN Ok(Sub(b, vt + q.s, 2)) ELSE OOB}
         [] q.t = "get_field" -> {IF q.i >= nf THEN None
                                  ELSE IF In(b, vt + 4 + 2 * q.i, 2) THEN Ok(Sub(b, vt + 4 + 2 * q.i, 2))
                                  ELSE OOB}
         [] q.t = "as_bytes" -> {IF In(b, vt, n) THEN Ok(Sub(b, vt, n)) ELSE OOB}

TermAns(b, al, loc, q) ==
  CASE q.k = "loc" -> LocAns(b, loc)
    [] q.k = "vt" -> VtAns(b, loc, q)
    [] OTHER ->
       LET x == SlotOf(b, loc, q.s) IN
       IF x.st = "oob" THEN {OOB}
       ELSE IF x.st = "none" THEN
            {IF q.k = "sc" /\ q.d # <<>> THEN Ok(q.d) ELSE None}
       ELSE IF q.k = "sc" THEN ScalarAns(b, q.t, x.o)
       ELSE LET p == FollowU(b, x.o) IN
            IF p = NoLoc THEN {OOB} ELSE RefAns(b, al, q, p)

RECURSIVE WalkAns(_, _, _, _, _)
WalkAns(b, al, loc, path, q) ==
  IF path = <<>> THEN TermAns(b, al, loc, q)
  ELSE LET h == Head(path)
           x == SlotOf(b, loc, h.s) IN
       IF x.st = "oob" THEN {OOB}
       ELSE IF x.st = "none" THEN {None}
       ELSE LET p == FollowU(b, x.o) IN
            IF p = NoLoc THEN {OOB}
            ELSE IF h.i < 0 THEN WalkAns(b, al, p, Tail(path), q)
            ELSE LET n == VecLen(b, p) IN
                 IF n = NoLoc THEN {OOB}
                 ELSE IF h.i >= n THEN {None}
                 ELSE LET e == FollowU(b, p + 4 + 4 * h.i) IN
                      IF e = NoLoc THEN {OOB} ELSE WalkAns(b, al, e, Tail(path), q)

IdAns(b, q) ==
  LET p == IF q.sp THEN 8 ELSE 4 IN
  {IF In(b, p, 4) THEN Ok(<<IF Sub(b, p, 4) = q.d THEN 1 ELSE 0>>) ELSE OOB}

FolAns(b, q) ==
  LET via(p) == IF p = NoLoc THEN {OOB} ELSE ScalarAns(b, "u16", p) IN
  CASE q.t = "voff" -> via(FollowV(b, q.at))
    [] q.t = "uoff" -> via(FollowU(b, q.at))
    [] q.t = "soff" -> via(FollowS(b, q.at))
    [] q.t \in {"skipid", "skipsz", "skiproot"} -> via(q.at + 4)
    [] q.t = "ident" -> {IF In(b, q.at, 4) THEN Ok(Sub(b, q.at, 4)) ELSE OOB}
    [] q.t = "start" -> via(q.at)

\* the answers of queries other than iteration
QueryAns(b, al, q) ==
  CASE q.k = "id" -> IdAns(b, q)
    [] q.k = "rsat" -> IF q.at < 0 THEN {OOB} ELSE ScalarAns(b, q.t, q.at)
    [] q.k = "rs" -> ScalarAns(b, q.t, Min(q.at, Len(b)))
    [] q.k = "fol" -> FolAns(b, q)
    [] OTHER -> LET r == RootLoc(b, q.sp) IN
                IF r = NoLoc THEN {OOB} ELSE WalkAns(b, al, r, q.path, q)

\* iteration: the answer is the length and the first q.i elements from one end
IterOk(b, al, q, p, r) ==
  LET n == IF VecLen(b, p) = NoLoc THEN 0 ELSE VecLen(b, p)
      m == Min(n, q.i) IN
  \* (a clamped length is beyond every buffer, so are the elements at its end)
       /\ r.ok /\ r.p /\ r.v = Clamp(n)
       /\ Len(r.el) = m
       /\ \A k \in 1..m :
            LET i == IF q.k = "viter" THEN k - 1 ELSE n - k IN
            r.el[k] \in ElemAns(b, al, q.t, ElemLoc(p, q.t, i))
IterAnsOk(b, al, q, r) ==
  LET root == RootLoc(b, q.sp) IN
  IF root = NoLoc THEN r = OOB
  ELSE LET locs == WalkAns(b, al, root, q.path, [k |-> "loc"]) IN
       \E a \in locs :
         IF ~a.ok \/ ~a.p THEN r = a
         ELSE LET loc == U32(a.v, 0)
                  x == SlotOf(b, loc, q.s) IN
              IF x.st = "oob" THEN r = OOB
              ELSE IF x.st = "none" THEN r = None
              ELSE LET p == FollowU(b, x.o) IN
                   IF p = NoLoc THEN r = OOB ELSE IterOk(b, al, q, p, r)

\* r is an admissible answer to q
AnsOk(b, al, q, r) ==
  IF q.k \in {"viter", "vback"} THEN IterAnsOk(b, al, q, r)
  ELSE r \in QueryAns(b, al, q)

\* --- safety only: no panic, no value from outside of the buffer, no
\* misaligned reference
SafeOk(b, al, q, r) ==
  /\ r.e # "PANIC"
  /\ IF q.k \in {"viter", "vback"}
     THEN IterAnsOk(b, al, q, r)
     ELSE (r.ok /\ r.p) => \E a \in QueryAns(b, al, q) : a.ok /\ a.p
===============================================================================

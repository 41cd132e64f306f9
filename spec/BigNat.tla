-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers as little-endian sequences of bytes without leading zeros, *)
(* for the constants of schemas (TLC's own integers have 32 bits).            *)
EXTENDS Integers, Sequences, SequencesExt

Zero == <<>>

RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % 256>> \o Carry(c \div 256)

\* a * k + c, for small k, c
MulAdd(a, k, c) ==
  IF k = 0 THEN Carry(c)
  ELSE LET r == FoldLeft(LAMBDA acc, d : LET x == d * k + acc[2] IN <<Append(acc[1], x % 256), x \div 256>>,
                         <<<<>>, c>>, a)
       IN r[1] \o Carry(r[2])
Mul(a, k) == MulAdd(a, k, 0)

Zeros(n) == [i \in 1..n |-> 0]
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8
             [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
\* a * 2^k
Shl(a, k) == IF a = Zero THEN Zero ELSE Zeros(k \div 8) \o Mul(a, Pow2(k % 8))
\* a * 10^k
MulTen(a, k) == FoldLeft(LAMBDA x, y : Mul(x, y), a, [i \in 1..((k \div 4) + (k % 4)) |-> IF i <= k \div 4 THEN 10000 ELSE 10])

\* from digits in some base, most significant first
Trim(a) == LET top == SelectLastInSeq(a, LAMBDA d : d # 0) IN SubSeq(a, 1, top)
FromDigits(ds, base) == Trim(FoldLeft(LAMBDA a, d : MulAdd(a, base, d), Zero, ds))

Add(a, c) == MulAdd(a, 1, c)      \* c small
RECURSIVE Borrow(_, _)
Borrow(a, c) == \* a - c for small c <= a
  IF c = 0 THEN a
  ELSE IF a[1] >= c THEN <<a[1] - c>> \o Tail(a)
  ELSE <<a[1] + 256 - c>> \o Borrow(Tail(a), 1)
Minus(a, c) == Trim(Borrow(a, c))

\* comparison: -1, 0 or 1
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET diff == {i \in 1..Len(a) : a[i] # b[i]} IN
       IF diff = {} THEN 0
       ELSE LET i == CHOOSE x \in diff : \A y \in diff : y <= x IN
            IF a[i] < b[i] THEN -1 ELSE 1
===============================================================================

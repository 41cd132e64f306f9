-------------------------------- MODULE Bytes --------------------------------
(* Byte sequences, little-endian scalars and UTF-8. Positions are zero-based. *)
(* TLC integers are 32 bits wide: 32-bit values read from a buffer are        *)
(* clamped to +-Big. All buffers of the checks are far shorter than Big, so a *)
(* clamped offset or length is out of bounds exactly when the true one is.    *)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255
Big == 16777216

Max(x, y) == IF x >= y THEN x ELSE y
Min(x, y) == IF x <= y THEN x ELSE y

Zeros(n) == [i \in 1..n |-> 0]
At(b, p) == b[p + 1]
Sub(b, p, n) == SubSeq(b, p + 1, p + n)
Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

LE16(n) == <<n % 256, (n \div 256) % 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div Big) % 256>>
\* two's complement of n, -2^24 < n < 2^24
LE32S(n) == IF n >= 0 THEN LE32(n)
            ELSE LET m == n + Big IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, 255>>

U16(b, p) == At(b, p) + 256 * At(b, p + 1)
Low24(b, p) == At(b, p) + 256 * At(b, p + 1) + 65536 * At(b, p + 2)
U32(b, p) == IF At(b, p + 3) > 0 THEN Big ELSE Low24(b, p)
S32(b, p) == LET t == At(b, p + 3) IN
             IF t = 0 THEN Low24(b, p)
             ELSE IF t < 128 THEN Big
             ELSE IF t = 255 THEN Low24(b, p) - Big
             ELSE -Big

Types == {"bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
Size(t) == CASE t \in {"bool", "u8", "i8"} -> 1
             [] t \in {"u16", "i16"} -> 2
             [] t \in {"u32", "i32", "f32"} -> 4
             [] t \in {"u64", "i64", "f64"} -> 8
IsFloat(t) == t \in {"f32", "f64"}

\* the little-endian bytes of a float: zero of either sign, NaN
FZero(v) == LET n == Len(v) IN (\A i \in 1..(n - 1) : v[i] = 0) /\ v[n] \in {0, 128}
FNaN(v) == IF Len(v) = 4
           THEN /\ v[4] % 128 = 127 /\ v[3] >= 128
                /\ (v[3] > 128 \/ v[2] > 0 \/ v[1] > 0)
           ELSE /\ v[8] % 128 = 127 /\ v[7] >= 240
                /\ (v[7] > 240 \/ \E i \in 1..6 : v[i] > 0)
\* equality of the values of type t that have these bytes
ScalarEq(t, v, w) == IF ~IsFloat(t) THEN v = w
                     ELSE IF FNaN(v) \/ FNaN(w) THEN FALSE
                     ELSE v = w \/ (FZero(v) /\ FZero(w))

\* UTF-8: the bytes b[lo..hi] (one-based, inclusive) are well-formed
LeadLen(c) == IF c < 128 THEN 1
              ELSE IF c < 194 THEN 0
              ELSE IF c < 224 THEN 2
              ELSE IF c < 240 THEN 3
              ELSE IF c < 245 THEN 4 ELSE 0
Cont(c) == c >= 128 /\ c < 192
SecondOk(c, d) == CASE c = 224 -> d >= 160
                    [] c = 237 -> d < 160
                    [] c = 240 -> d >= 144
                    [] c = 244 -> d < 144
                    [] OTHER -> TRUE
Utf8Valid(b, lo, hi) ==
  \A i \in lo..hi :
    LET c == b[i] IN
    IF c < 128 THEN TRUE
    ELSE IF Cont(c)
         THEN \E k \in 1..3 : /\ i - k >= lo
                              /\ LeadLen(b[i - k]) > k
                              /\ \A j \in 1..(k - 1) : Cont(b[i - j])
         ELSE LET n == LeadLen(c) IN
              /\ n > 1
              /\ i + n - 1 <= hi
              /\ \A j \in 1..(n - 1) : Cont(b[i + j])
              /\ SecondOk(c, b[i + 1])
===============================================================================

-------------------------------- MODULE Ieee -------------------------------
(* IEEE 754 single and double precision as octets; conversion between them   *)
(* with rounding to nearest, ties to even.                                    *)
EXTENDS Bytes

BitsOf(s) == [i \in 1..(8 * Len(s)) |-> (s[(i - 1) \div 8 + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]
OctetsOf(b) == [i \in 1..(Len(b) \div 8) |-> FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(b, 8 * i - 7, 8 * i))]
Nat2(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)               \* at most 30 bits
ToBits(v, n) == [i \in 1..n |-> (v \div (2 ^ (n - i))) % 2]
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

\* parts of a double: sign bit, exponent, 52 fraction bits
Sign(b) == b[1]
DExp(b) == Nat2(SubSeq(b, 2, 12))
DFrac(b) == SubSeq(b, 13, 64)
IsNan64(s) == LET b == BitsOf(s) IN DExp(b) = 2047 /\ ~AllZero(DFrac(b))
IsInf64(s) == LET b == BitsOf(s) IN DExp(b) = 2047 /\ AllZero(DFrac(b))
IsNan32(s) == LET b == BitsOf(s) IN Nat2(SubSeq(b, 2, 9)) = 255 /\ ~AllZero(SubSeq(b, 10, 32))

Over == [ok |-> FALSE, c |-> <<>>]
\* finite double (8 octets) to single (4 octets)
ToSingle(s) ==
  LET b == BitsOf(s)
      e == DExp(b) - 1023
      sig == <<IF DExp(b) = 0 THEN 0 ELSE 1>> \o DFrac(b)        \* 53 bits
      keep == IF e >= -126 THEN 24 ELSE 24 - (-126 - e)           \* bits of the significand a single has room for
      k == IF keep >= 1 THEN Nat2(SubSeq(sig, 1, keep)) ELSE 0
      half == IF keep >= 0 THEN sig[keep + 1] ELSE 0
      rest == IF keep >= 0 THEN ~AllZero(SubSeq(sig, keep + 2, 53)) ELSE TRUE
      up == half = 1 /\ (rest \/ (k % 2) = 1)
      r == IF up THEN k + 1 ELSE k
      \* biased exponent and 23 bits
      grown == r = 16777216                                       \* 2^24
      sub == e < -126 /\ r < 8388608
      be == IF sub THEN 0 ELSE IF e < -126 THEN 1 ELSE e + 127 + (IF grown THEN 1 ELSE 0)
      fr == IF sub THEN r ELSE IF grown THEN 0 ELSE r - 8388608
  IN IF DExp(b) = 0 THEN [ok |-> TRUE, c |-> <<128 * Sign(b), 0, 0, 0>>]     \* zero or far below the smallest single
     ELSE IF be > 254 THEN Over
     ELSE [ok |-> TRUE, c |-> OctetsOf(<<Sign(b)>> \o ToBits(be, 8) \o ToBits(fr, 23))]
\* single (4 octets), not NaN, to the same number as a double
RECURSIVE Norm(_, _)
Norm(m, e) == IF m[1] = 1 THEN [m |-> m, e |-> e] ELSE Norm(Append(Tail(m), 0), e - 1)
ToDouble(s) ==
  LET b == BitsOf(s)
      be == Nat2(SubSeq(b, 2, 9))
      f == SubSeq(b, 10, 32)
      n == IF be = 0 /\ ~AllZero(f) THEN Norm(f \o <<0>>, -127) ELSE [m |-> <<1>> \o f, e |-> be - 127]      \* value = 1.xxx * 2^e
  IN IF be = 0 /\ AllZero(f) THEN <<128 * Sign(b), 0, 0, 0, 0, 0, 0, 0>>
     ELSE OctetsOf(<<Sign(b)>> \o ToBits(IF be = 255 THEN 2047 ELSE n.e + 1023, 11) \o Tail(n.m) \o [i \in 1..29 |-> 0])
\* order of the numbers two finite doubles stand for (zeros equal)
Mag(s) == <<(s[1] % 128)>> \o Tail(s)
LexLe(a, b) == a = b \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
FLe(a, b) == LET na == a[1] > 127  nb == b[1] > 127
             IN CASE na /\ ~nb -> TRUE [] ~na /\ nb -> Mag(a) = Mag(b) /\ Mag(a) = Zeros(8) [] na -> LexLe(Mag(b), Mag(a)) [] OTHER -> LexLe(Mag(a), Mag(b))
=============================================================================

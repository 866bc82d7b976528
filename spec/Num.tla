-------------------------------- MODULE Num --------------------------------
(* Integers of any size as sign and magnitude, their decimal text and their  *)
(* two's-complement octets; the integer types of COSEM (width, sign, limits). *)
EXTENDS Bytes

Big(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
OfInt(i) == Big(i < 0, StripZeros(BE(IF i < 0 THEN -i ELSE i, 4)))     \* |i| < 2^31
Zero == Big(FALSE, <<>>)

\* magnitudes: big-endian octets, no leading zero
RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(m, k, a, i, acc) ==      \* from the last octet to the first, carrying a
  IF i = 0 THEN IF a = 0 THEN acc ELSE MulAddFrom(m, k, a \div 256, 0, <<a % 256>> \o acc)
  ELSE LET v == m[i] * k + a IN MulAddFrom(m, k, v \div 256, i - 1, <<v % 256>> \o acc)
MulAdd(m, k, a) == StripZeros(MulAddFrom(m, k, a, Len(m), <<>>))
Inc(m) == MulAdd(m, 1, 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(m, k, i, r, acc) ==
  IF i > Len(m) THEN [q |-> StripZeros(acc), r |-> r]
  ELSE LET v == r * 256 + m[i] IN DivFrom(m, k, i + 1, (v % k), Append(acc, v \div k))
DivSmall(m, k) == DivFrom(m, k, 1, 0, <<>>)
\* a <= b
MagLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
               ELSE \/ a = b
                    \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Le(x, y) == CASE x.neg /\ ~y.neg -> TRUE
              [] ~x.neg /\ y.neg -> FALSE
              [] x.neg -> MagLe(y.m, x.m)
              [] OTHER -> MagLe(x.m, y.m)

\* decimal text (code points)
RECURSIVE DigitsOf(_)
DigitsOf(m) == IF m = <<>> THEN <<>> ELSE LET d == DivSmall(m, 10) IN Append(DigitsOf(d.q), 48 + d.r)
Digits(m) == IF m = <<>> THEN <<48>> ELSE DigitsOf(m)
Dec10(x) == (IF x.neg THEN <<45>> ELSE <<>>) \o Digits(x.m)
IsDigit(c) == c \in 48..57
RECURSIVE Undigits(_, _, _)
Undigits(s, i, acc) == IF i > Len(s) THEN acc ELSE Undigits(s, i + 1, MulAdd(acc, 10, s[i] - 48))
ParseInt(s) ==
  LET signed == s # <<>> /\ s[1] \in {43, 45}
      d == IF signed THEN Tail(s) ELSE s
  IN IF d = <<>> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) THEN [ok |-> FALSE, x |-> Zero]
     ELSE [ok |-> TRUE, x |-> Big(signed /\ s[1] = 45, Undigits(d, 1, <<>>))]
\* x * 10^e written without an exponent: e < 0 gives -e digits after the point
Scaled(x, e) ==
  LET d == Digits(x.m)
      sign == IF x.neg THEN <<45>> ELSE <<>>
  IN IF e >= 0 THEN sign \o (IF x.m = <<>> THEN <<48>> ELSE d \o Fill(48, e))
     ELSE LET p == IF Len(d) <= -e THEN Fill(48, 1 - e - Len(d)) \o d ELSE d
          IN sign \o SubSeq(p, 1, Len(p) + e) \o <<46>> \o SubSeq(p, Len(p) + e + 1, Len(p))
\* digits, optional point and digits, as a multiple of 10^e; exact only
\* x * 10^e <= y
RECURSIVE Tens(_, _)
Tens(m, k) == IF k <= 0 THEN m ELSE Tens(MulAdd(m, 10, 0), k - 1)
ScaledLe(x, e, y) == Le(Big(x.neg, Tens(x.m, e)), Big(y.neg, Tens(y.m, -e)))
Point(s) == FindFrom(s, 46, 1)
TrimTail(s) == IF \A i \in 1..Len(s) : s[i] = 48 THEN <<>>
               ELSE LET k == CHOOSE i \in 1..Len(s) : s[i] # 48 /\ \A j \in (i + 1)..Len(s) : s[j] = 48 IN SubSeq(s, 1, k)
ParseScaled(s, e) ==
  LET p == Point(s)
      whole == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      frac == TrimTail(IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, Len(s)))
      w == ParseInt(whole)
      neg == whole # <<>> /\ whole[1] = 45
      no == [ok |-> FALSE, x |-> Zero]
  IN IF ~w.ok \/ (\E i \in 1..Len(frac) : ~IsDigit(frac[i])) THEN no
     ELSE IF e <= 0
     THEN IF Len(frac) > -e THEN no
          ELSE [ok |-> TRUE, x |-> Big(neg, Undigits(Digits(w.x.m) \o frac \o Fill(48, -e - Len(frac)), 1, <<>>))]
     ELSE LET d == Digits(w.x.m)
          IN IF frac # <<>> \/ (w.x.m # <<>> /\ (Len(d) <= e \/ \E i \in (Len(d) - e + 1)..Len(d) : d[i] # 48)) THEN no
             ELSE [ok |-> TRUE, x |-> IF w.x.m = <<>> THEN Zero ELSE Big(neg, Undigits(SubSeq(d, 1, Len(d) - e), 1, <<>>))]

\* two's complement
PadTo(m, n) == Zeros(n - Len(m)) \o m
Flip(s) == [i \in 1..Len(s) |-> 255 - s[i]]
Pow2(k) == <<2 ^ (k % 8)>> \o Zeros(k \div 8)
MinOf(n) == Big(TRUE, Pow2(8 * n - 1))
FitsSigned(x, n) == IF x.neg THEN MagLe(x.m, Pow2(8 * n - 1)) ELSE Len(x.m) < n \/ (Len(x.m) = n /\ x.m[1] < 128)
FitsUnsigned(x, n) == ~x.neg /\ Len(x.m) <= n
IncWrap(s) == LET m == Inc(s) IN IF Len(m) > Len(s) THEN Zeros(Len(s)) ELSE PadTo(m, Len(s))
Twos(x, n) == IF x.neg THEN IncWrap(Flip(PadTo(x.m, n))) ELSE PadTo(x.m, n)
FromTwos(s, signed) ==
  IF signed /\ s[1] > 127 THEN LET f == IncWrap(Flip(s)) IN Big(TRUE, IF f = Zeros(Len(s)) THEN Pow2(8 * Len(s)) ELSE StripZeros(f))
  ELSE Big(FALSE, StripZeros(s))

\* ------------------------------------------------------------- COSEM integers
IntTags == {5, 6, 15, 16, 17, 18, 20, 21}
WidthOf(t) == CASE t \in {15, 17} -> 1 [] t \in {16, 18} -> 2 [] t \in {5, 6} -> 4 [] t \in {20, 21} -> 8
SignedOf(t) == t \in {5, 15, 16, 20}
\* a type: tag and limits (none if has* is false); a constant has val only
InRange(ty, x) ==
  /\ IF SignedOf(ty.t) THEN FitsSigned(x, WidthOf(ty.t)) ELSE FitsUnsigned(x, WidthOf(ty.t))
  /\ ty.hasval => x = ty.val
  /\ (~ty.hasval /\ ty.hasmin) => Le(ty.min, x)
  /\ (~ty.hasval /\ ty.hasmax) => Le(x, ty.max)
Store(ty, x) == Twos(x, WidthOf(ty.t))
Load(ty, c) == FromTwos(c, SignedOf(ty.t))
Plain(t) == [t |-> t, hasmin |-> FALSE, min |-> Zero, hasmax |-> FALSE, max |-> Zero, hasval |-> FALSE, val |-> Zero]
\* logical shifts of the octets
ShiftBits(c, up) ==
  LET n == Len(c)
  IN IF up THEN [i \in 1..n |-> ((c[i] * 2) % 256) + (IF i < n /\ c[i + 1] > 127 THEN 1 ELSE 0)]
     ELSE [i \in 1..n |-> c[i] \div 2 + (IF i > 1 THEN 128 * (c[i - 1] % 2) ELSE 0)]
RECURSIVE Shift(_, _, _)
Shift(c, up, k) == IF k = 0 THEN c ELSE Shift(ShiftBits(c, up), up, k - 1)
=============================================================================

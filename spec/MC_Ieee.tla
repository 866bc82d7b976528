------------------------------ MODULE MC_Ieee ------------------------------
(* Doubles built from sign, exponent and fraction patterns are rounded to    *)
(* single.  Checked: a single survives the trip; the result is one of the    *)
(* two neighbouring singles; and it is the nearer one (the midpoint of two   *)
(* neighbours is itself a double), the even one in the middle.               *)
EXTENDS Ieee
CONSTANTS Exps, Heads, Tails
VARIABLES d, done
vars == <<d, done>>
\* 23 leading and 29 trailing fraction bits
Frac(h, t) == ToBits(h, 23) \o ToBits(t, 29)
Init == d = Zeros(8) /\ done = FALSE
Pick == ~done /\ done' = TRUE /\ \E s \in {0, 1}, e \in Exps, h \in Heads, t \in Tails : d' = OctetsOf(<<s>> \o ToBits(e, 11) \o Frac(h, t))
Next == Pick
Spec == Init /\ [][Next]_vars
R == ToSingle(d)
Neg(s) == [s EXCEPT ![1] = (s[1] + 128) % 256]
Abs(s) == [s EXCEPT ![1] = s[1] % 128]
\* neighbours of a positive single (as natural steps on its octets)
RECURSIVE StepUp(_), StepDown(_)
StepUp(c) == IF c[Len(c)] < 255 THEN [c EXCEPT ![Len(c)] = @ + 1] ELSE Append(StepUp(SubSeq(c, 1, Len(c) - 1)), 0)
StepDown(c) == IF c[Len(c)] > 0 THEN [c EXCEPT ![Len(c)] = @ - 1] ELSE Append(StepDown(SubSeq(c, 1, Len(c) - 1)), 255)
\* the double halfway between the singles c and StepUp(c): double of c with the next bit set (a double has room for it)
Middle(c) ==
  LET x == BitsOf(ToDouble(c))
      y == BitsOf(ToDouble(StepUp(c)))
      ulp == 29     \* bits of the double below the last bit of a normal single
      sub == Nat2(SubSeq(BitsOf(c), 2, 9)) = 0
      \* subnormals: add half of 2^-149 to x: both are multiples of 2^-149, the middle is exact in a double
      lz == CHOOSE k \in 0..23 : Nat2(SubSeq(BitsOf(c), 10, 32)) < 2 ^ k /\ (k = 0 \/ Nat2(SubSeq(BitsOf(c), 10, 32)) >= 2 ^ (k - 1))
  IN IF ~sub THEN OctetsOf([x EXCEPT ![13 + 23] = 1])
     ELSE IF lz = 0 THEN OctetsOf(<<0>> \o ToBits(1023 - 150, 11) \o [i \in 1..52 |-> 0])
     ELSE OctetsOf([x EXCEPT ![13 + lz - 1] = 1])
Finite(c) == c[1] % 128 < 127 \/ c[2] < 128
Largest == <<127, 127, 255, 255>>
SingleKept == R.ok => ToSingle(ToDouble(R.c)) = R
SignKept == R.ok => R.c[1] \div 128 = d[1] \div 128
Nearest ==
  LET a == Abs(d)  r == IF R.ok THEN Abs(R.c) ELSE <<>>
  IN IF ~R.ok THEN LexLe(Middle(Largest), a)
     ELSE LET below == IF r = Zeros(4) THEN TRUE ELSE LET m == Middle(StepDown(r)) IN LexLe(m, a) /\ (m = a => (r[4] % 2) = 0)
              above == LET m == Middle(r) IN LexLe(a, m) /\ (m = a => (r[4] % 2) = 0)
          IN below /\ above
=============================================================================

------------------------------- MODULE MC_Num ------------------------------
(* A counter that steps and leaps through the integers, kept both as a big   *)
(* integer and (near zero) as a TLC integer, and a cell of each integer type *)
(* that is set, cleared and shifted.                                         *)
EXTENDS Num

CONSTANTS Near, Leaps
VARIABLES x, n, cell
vars == <<x, n, cell>>

Types == {Plain(t) : t \in IntTags}
         \cup {[Plain(15) EXCEPT !.hasmin = TRUE, !.min = OfInt(-120), !.hasmax = TRUE, !.max = OfInt(120)],
               [Plain(18) EXCEPT !.hasmin = TRUE, !.min = OfInt(1)], [Plain(17) EXCEPT !.hasval = TRUE, !.val = OfInt(7)]}
Add1(b) == IF b.neg THEN LET d == DivFrom(b.m, 1, 1, 0, <<>>)
                             dec == StripZeros([i \in 1..Len(b.m) |->
                                      IF \A j \in (i + 1)..Len(b.m) : b.m[j] = 0 THEN (b.m[i] + 255) % 256 ELSE b.m[i]])
                         IN Big(TRUE, dec)
           ELSE Big(FALSE, Inc(b.m))

Init == x = OfInt(-Near) /\ n = -Near /\ cell = <<0>>
Step == n < Near /\ cell = <<0>> /\ x' = Add1(x) /\ n' = n + 1 /\ UNCHANGED cell
Leap == n = Near /\ \E b \in Leaps : x' = b /\ n' = Near + 1 /\ UNCHANGED cell
StepBig == n > Near /\ n < Near + 6 /\ x' = Add1(x) /\ n' = n + 1 /\ UNCHANGED cell
ShiftCell == n = -Near /\ \E up \in BOOLEAN : cell' = Shift(cell, up, 1) /\ UNCHANGED <<x, n>>
SetCell == n = -Near /\ cell = <<0>> /\ cell' \in {<<1, 128>>, <<129, 1>>, <<255>>, <<64, 0, 0, 1>>} /\ UNCHANGED <<x, n>>
Next == Step \/ Leap \/ StepBig \/ ShiftCell \/ SetCell
Spec == Init /\ [][Next]_vars

Agrees == n <= Near => x = OfInt(n)
TextInverse == ParseInt(Dec10(x)) = [ok |-> TRUE, x |-> x]
TextScaled == \A e \in -9..4 : ParseScaled(Scaled(x, e), e) = [ok |-> TRUE, x |-> x]
\* the stored octets give the value back, exactly for the values that fit
TwosInverse == \A t \in IntTags :
   /\ InRange(Plain(t), x) => Load(Plain(t), Store(Plain(t), x)) = x /\ Len(Store(Plain(t), x)) = WidthOf(t)
   /\ n <= Near => (InRange(Plain(t), x) <=>
        CASE t = 15 -> n \in -128..127 [] t = 17 -> n \in 0..255 [] t = 16 -> n \in -32768..32767 [] t = 18 -> n \in 0..65535 [] SignedOf(t) -> TRUE [] OTHER -> n >= 0)
LimitsHold == \A ty \in Types : InRange(ty, x) => InRange(Plain(ty.t), x)
OrderAgrees == n <= Near => (Le(x, Zero) <=> n <= 0) /\ (Le(OfInt(-5), x) <=> n >= -5)
ShiftBack == cell[1] < 128 => Shift(Shift(cell, TRUE, 1), FALSE, 1) = cell
Far == {Big(s, m) : s \in BOOLEAN, m \in {<<127, 253>>, <<127, 255>>, <<255, 253>>, <<127, 255, 255, 253>>, <<255, 255, 255, 253>>,
        <<127, 255, 255, 255, 255, 255, 255, 253>>, <<255, 255, 255, 255, 255, 255, 255, 253>>, <<128, 0, 0, 0, 0, 0, 0, 3>>, <<128, 0, 0, 3>>, <<128, 3>>,
        <<1, 0, 0, 0, 0, 0, 0, 0, 3>>}}
=============================================================================

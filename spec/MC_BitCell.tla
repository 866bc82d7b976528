------------------------------ MODULE MC_BitCell ---------------------------
(* Bit strings under every operation.  Checked: the encoding is read back    *)
(* as the same bits, rotating left and right cancel, a refusal changes       *)
(* nothing, inverting twice restores, one bit change changes one bit.        *)
EXTENDS BitCell, Json
CONSTANTS MaxBits, MaxOps
VARIABLES c, last, hist
vars == <<c, last, hist>>
Init == c = OfBits(<<>>) /\ last = [e |-> "", before |-> c, op |-> [op |-> "none"]] /\ hist = <<>>
Apply(o) == /\ Len(hist) < MaxOps
            /\ LET r == DoBits(c, o) IN c' = r.c /\ last' = [e |-> r.e, before |-> c, op |-> o]
            /\ hist' = Append(hist, o)
Texts == {<<>>, <<48>>, <<49>>, <<50>>, <<49, 48, 49>>, [i \in 1..8 |-> 49], [i \in 1..9 |-> IF i % 2 = 0 THEN 48 ELSE 49], <<49, 32>>}
SetText == \E s \in Texts : Apply([op |-> "text", s |-> s])
SetOctets == \E s \in {<<4, 0>>, <<4, 3, 191>>, <<4, 9, 255>>, <<4, 10, 1, 129>>, <<9, 1, 1>>, <<4, 129, 2, 192>>} : Apply([op |-> "octets", s |-> s])
SetContents == \E s \in {<<>>, <<165>>, <<1, 128>>} : Apply([op |-> "contents", s |-> s])
OneBit == c.n <= MaxBits /\ \E i \in -2..9 : (\E v \in 0..1 : Apply([op |-> "setbit", i |-> i, v |-> v])) \/ Apply([op |-> "inverse", i |-> i])
Rotate == c.n > 0 /\ \E k \in {0, 1, 2, 8, 11} : Apply([op |-> "left", k |-> k]) \/ Apply([op |-> "right", k |-> k])
Clear == Apply([op |-> "clear"])
Next == SetText \/ SetOctets \/ SetContents \/ OneBit \/ Rotate \/ Clear
Spec == Init /\ [][Next]_vars
View == <<c, last>>
ReadBack == LET r == Dec(CdtF, EncBits(c)) IN r.ok /\ r.val.n = c.n /\ BitsOf(r.val.c) = c.w
Shape == Len(c.w) = 8 * OctetsFor(c.n) /\ \A i \in 1..Len(c.w) : IsBit(c.w[i])
RefusedIsNoop == last.e # "" => c = last.before
Turn == c.n > 0 => \A k \in 0..10 : Value(DoBits(DoBits(c, [op |-> "left", k |-> k]).c, [op |-> "right", k |-> k]).c) = Value(c)
OneStep == (last.op.op \in {"setbit", "inverse"} /\ last.e = "") => Cardinality({i \in 1..c.n : Value(c)[i] # Value(last.before)[i]}) <= 1 /\ c.n = last.before.n
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([hist |-> hist])>>) ELSE TRUE
=============================================================================

------------------------------- MODULE MC_Crc ------------------------------
(* What the frame check sequence detects: over every frame of a small family *)
(* every single-bit error, every pair of bit errors and every error burst of *)
(* up to 16 bits leaves nothing that would be recognised.                    *)
EXTENDS HdlcFrame

CONSTANTS Pairs, Bursts
AllBursts == {(k * 37) % 32768 : k \in 0..2000}

Family == { [da |-> <<3>>, sa |-> <<33>>, ctl |-> 147, info |-> <<>>, seg |-> FALSE],
            [da |-> <<2, 35>>, sa |-> <<33>>, ctl |-> 16, info |-> <<230, 231, 0>>, seg |-> FALSE],
            [da |-> <<33>>, sa |-> <<0, 2, 4, 71>>, ctl |-> 50, info |-> <<126, 160>>, seg |-> TRUE] }

VARIABLES f, i, j, kind
vars == <<f, i, j, kind>>

Frm == EncFrame(f)
NBits == 8 * (Len(Frm) - 2)
BitAt(k) == 2 ^ (7 - (k % 8))
Flip(b, k) == [b EXCEPT ![2 + (k \div 8)] = @ ^^ BitAt(k)]

Init == f \in Family /\ i = -1 /\ j = -1 /\ kind = "none"
Single == kind = "none" /\ kind' = "single" /\ i' \in 0..(NBits - 1) /\ UNCHANGED <<f, j>>
Pair == Pairs /\ kind = "single" /\ kind' = "pair" /\ j' \in (i + 1)..(NBits - 1) /\ UNCHANGED <<f, i>>
\* a burst of up to 16 bits starting at bit i: first bit flipped, the others by pattern j
Burst == Bursts # {} /\ kind = "single" /\ kind' = "burst" /\ j' \in Bursts /\ i + 15 < NBits /\ UNCHANGED <<f, i>>
Next == Single \/ Pair \/ Burst
Spec == Init /\ [][Next]_vars

RECURSIVE FlipBurst(_, _, _, _)
FlipBurst(b, k, pat, n) == IF n = 0 THEN b
  ELSE FlipBurst(IF pat % 2 = 1 THEN Flip(b, k) ELSE b, k + 1, pat \div 2, n - 1)

Line == CASE kind = "none" -> Frm
          [] kind = "single" -> Flip(Frm, i)
          [] kind = "pair" -> Flip(Flip(Frm, i), j)
          [] kind = "burst" -> FlipBurst(Frm, i, 2 * j + 1, 16)

Detected == Drain(Line, <<>>).out = (IF kind = "none" THEN <<f>> ELSE <<>>)
ResidueHolds == CrcReg(SubSeq(Frm, 2, Len(Frm) - 1)) = Residue
=============================================================================

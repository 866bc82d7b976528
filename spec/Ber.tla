-------------------------------- MODULE Ber --------------------------------
(* Length octets, ITU-T X.690 8.1.3 in the project's profile: short form     *)
(* below 80h, otherwise 81h, 82h, 84h or (from 2^32) the least number of     *)
(* octets.  A length is given by its magnitude: big-endian octets without    *)
(* leading zeros (<<>> is zero), because TLC integers end at 2^31.           *)
EXTENDS Bytes

Mag(n) == StripZeros(BE(n, 4))
LenEncM(m) ==
  CASE Len(m) = 0 -> <<0>>
    [] Len(m) = 1 /\ m[1] < 128 -> m
    [] Len(m) = 1 -> <<129>> \o m
    [] Len(m) = 2 -> <<130>> \o m
    [] Len(m) \in 3..4 -> <<132>> \o Zeros(4 - Len(m)) \o m
    [] OTHER -> <<128 + Len(m)>> \o m
LenEnc(n) == LenEncM(Mag(n))

NoLen == [ok |-> FALSE, mag |-> <<>>, used |-> 0]
\* any definite form is read, also one with more octets than needed; the indefinite form (80h) is no length
LenDec(s) ==
  IF s = <<>> THEN NoLen
  ELSE IF s[1] < 128 THEN [ok |-> TRUE, mag |-> StripZeros(<<s[1]>>), used |-> 1]
  ELSE IF s[1] = 128 \/ Len(s) < 1 + (s[1] - 128) THEN NoLen
  ELSE [ok |-> TRUE, mag |-> StripZeros(SubSeq(s, 2, s[1] - 127)), used |-> s[1] - 127]

Huge == 16777216                     \* stands for every length no input here can have
MagVal(m) == IF Len(m) <= 3 THEN FromBE(m) ELSE Huge
=============================================================================

-------------------------------- MODULE Llc --------------------------------
(* LLC sublayer header in front of every APDU carried by HDLC I frames:      *)
(* destination LSAP E6 (or FF, broadcast), source LSAP E6 (command) or E7    *)
(* (response), quality 00.                                                   *)
EXTENDS Bytes

LlcHeader == <<230, 230, 0>>
LlcCmd(apdu) == LlcHeader \o apdu
LlcOk(s) == Len(s) >= 3 /\ s[1] \in {230, 255} /\ s[2] \in {230, 231} /\ s[3] = 0
LlcApdu(s) == Drop(s, 3)
=============================================================================

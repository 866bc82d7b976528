------------------------------- MODULE MC_Llc ------------------------------
(* Segments of one APDU: the header is sent once, in front of the first.     *)
EXTENDS Llc, HdlcSegments
CONSTANTS MaxLen2, Sizes, Alphabet
VARIABLES apdu, size, q, rest, phase
vars == <<apdu, size, q, rest, phase>>
Init == apdu = <<>> /\ size \in Sizes /\ q = <<>> /\ rest = <<>> /\ phase = "write"
Write == phase = "write" /\ Len(apdu) < MaxLen2 /\ \E x \in Alphabet : apdu' = Append(apdu, x) /\ UNCHANGED <<size, q, rest, phase>>
Pack == phase = "write" /\ phase' = "send" /\ rest' = LlcCmd(apdu) /\ UNCHANGED <<apdu, size, q>>
Emit2 == /\ phase = "send"
         /\ q' = Append(q, [ctl |-> IF q = <<>> THEN 16 ELSE NextSend(q[Len(q)].ctl), seg |-> Len(rest) > size, info |-> Take(rest, size)])
         /\ rest' = Drop(rest, size)
         /\ phase' = IF Len(rest) > size THEN "send" ELSE "done"
         /\ UNCHANGED <<apdu, size>>
Next == Write \/ Pack \/ Emit2
Spec == Init /\ [][Next]_vars
Delivered == phase = "done" => LET r == Join(q) IN r.ok /\ LlcOk(r.info) /\ LlcApdu(r.info) = apdu
=============================================================================

---------------------------- MODULE MC_HdlcSetup ----------------------------
(* Every negotiation field up to MaxLen octets of the alphabet, in any order.*)
EXTENDS HdlcSetup
CONSTANTS Alphabet, MaxLen, Values
VARIABLES p, c
vars == <<p, c>>
Init == p = Factory /\ c = <<>>
\* octets arrive one by one; the field is taken as it stands
Byte == Len(c) < MaxLen /\ \E b \in Alphabet : c' = Append(c, b) /\ UNCHANGED p
Arrive == p' = After(p, c) /\ c' = <<>>
Frame(s) == <<129, 128, Len(s)>> \o s
Tell == c = <<>> /\ \E t, u \in 5..8, v \in Values : c' = Frame(<<t, 1, v>> \o <<u, 2>> \o BE(v, 2)) /\ UNCHANGED p
Next == Byte \/ Arrive \/ Tell
Spec == Init /\ [][Next]_vars
InRange == \A f \in DOMAIN p : p[f] \in 0..Top(f)
\* all or nothing: a field that any prefix of whole parameters would accept is refused whole
Whole == ~Told(p, c).ok => After(p, c) = p
\* what the object would send leads another object that has the defaults to the same values
Tlv(t, s) == IF s = <<>> THEN <<>> ELSE <<t, Len(s)>> \o s
Offer == LET s == Tlv(5, Sent(p, "it")) \o Tlv(6, Sent(p, "ir")) \o Tlv(7, Sent(p, "wt")) \o Tlv(8, Sent(p, "wr")) IN IF s = <<>> THEN <<>> ELSE Frame(s)
Understood == After(Factory, Offer) = p
=============================================================================

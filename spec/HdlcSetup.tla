------------------------------ MODULE HdlcSetup -----------------------------
(* IEC HDLC setup object (Blue Book 4.7.2): link parameters taken from a     *)
(* client's negotiation field.  p: it, ir information field lengths, wt, wr  *)
(* windows, as the object names them; any number its types hold is kept.     *)
EXTENDS Bytes

Factory == [it |-> 2030, ir |-> 2030, wt |-> 1, wr |-> 1]
Top(f) == IF f \in {"it", "ir"} THEN 65535 ELSE 255
FieldOf(tag) == <<"it", "ir", "wt", "wr">>[tag - 4]
No0 == [ok |-> FALSE, p |-> Factory]
RECURSIVE Params(_, _)
Params(s, p) ==
  IF s = <<>> THEN [ok |-> TRUE, p |-> p]
  ELSE IF Len(s) < 2 \/ s[1] \notin 5..8 \/ s[2] > Len(s) - 2 THEN No0
  ELSE LET z == StripZeros(Slice(s, 3, s[2]))
           v == IF Len(z) > 2 THEN 65536 ELSE FromBE(z)
           f == FieldOf(s[1])
       IN IF v > Top(f) THEN No0 ELSE Params(Drop(s, 2 + s[2]), [p EXCEPT ![f] = v])
\* an empty field: everything is back to the defaults; a parameter not named keeps its value; a wrong field changes nothing
Told(p, c) == IF c = <<>> THEN [ok |-> TRUE, p |-> Factory]
              ELSE IF Len(c) < 3 \/ c[1] # 129 \/ c[2] # 128 \/ c[3] # Len(c) - 3 THEN No0
              ELSE Params(Drop(c, 3), p)
After(p, c) == LET r == Told(p, c) IN IF r.ok THEN r.p ELSE p
Put(p, f, v) == IF v \in 0..Top(f) THEN [ok |-> TRUE, p |-> [p EXCEPT ![f] = v]] ELSE No0
\* octets to be sent: only what differs from the default
Octets(f) == IF f \in {"it", "ir"} THEN 2 ELSE 1
Sent(p, f) == IF p[f] = Factory[f] THEN <<>> ELSE BE(p[f], Octets(f))
=============================================================================

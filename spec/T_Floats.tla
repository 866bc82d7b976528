------------------------------ MODULE T_Floats -----------------------------
(* Records of float cells: made from a number (given as the octets of its    *)
(* double), its text or its octets; shown as octets, number and text.        *)
EXTENDS Ieee, TraceBase

Nothing == 0
\* w: 4 or 8; d: octets of the double; o: [e, c, enc, dec: octets of the double shown, back: contents made from the text shown]
Shows(w, c, o) ==
  LET nan == IF w = 4 THEN IsNan32(c) ELSE IsNan64(c)
      v == IF w = 8 THEN c ELSE ToDouble(c)
  IN Clause("contents", o.c = c) \cup Clause("encoding", o.enc = <<IF w = 4 THEN 23 ELSE 24>> \o c)
     \cup (IF nan THEN Clause("value", IsNan64(o.dec))
           ELSE Clause("value", o.dec = v) \cup Clause("text-back", IsInf64(v) \/ o.back = c))
JudgeFloat(x, e) ==
  LET r == CASE e.how \in {"number", "integer", "text", "hextext", "other"} ->
                  IF IsInf64(e.d) THEN Over ELSE IF e.w = 8 THEN [ok |-> TRUE, c |-> e.d] ELSE ToSingle(e.d)
             [] e.how = "contents" -> IF Len(e.s) = e.w THEN [ok |-> TRUE, c |-> e.s] ELSE Over
             [] e.how = "octets" -> IF Len(e.s) > e.w /\ e.s[1] = (IF e.w = 4 THEN 23 ELSE 24) THEN [ok |-> TRUE, c |-> SubSeq(e.s, 2, e.w + 1)] ELSE Over
             [] e.how = "badtext" -> Over
             [] e.how = "none" -> [ok |-> TRUE, c |-> Zeros(e.w)]
      number == e.how \in {"number", "integer", "other"}
  IN [st |-> x,
      why |-> IF number /\ IsNan64(e.d) THEN Clause("not-a-number", e.o.e = "" /\ IsNan64(e.o.dec))
              ELSE Clause(IF r.ok THEN "good-value-refused" ELSE "bad-value-accepted", (e.o.e = "") = r.ok)
                   \cup Clause("error-kind", e.o.e \in {"", "ValueError"} \/ (number /\ e.o.e = "OverflowError"))
                   \cup (IF r.ok /\ e.o.e = "" THEN Shows(e.w, r.c, e.o) ELSE {})]
=============================================================================

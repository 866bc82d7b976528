------------------------------- MODULE T_Bits ------------------------------
(* Records of bit strings (common_data_types and useful_types).              *)
EXTENDS BitCell, TraceBase
Nothing == OfBits(<<>>)
BitCodes(c) == [i \in 1..c.n |-> 48 + Value(c)[i]]
JudgeBits(q, e) ==
  LET r == IF e.ev = "ut" /\ e.op.op = "octets"
           THEN LET d == Dec(UtF, <<4>> \o e.op.s) IN IF d.ok THEN [c |-> BitCell(d.val.n, BitsOf(d.val.c)), e |-> ""] ELSE [c |-> q, e |-> "bad"]
           ELSE DoBits(q, e.op)
      en == EncBits(r.c)
  IN [st |-> r.c,
      why |-> Clause(IF r.e = "" THEN "good-change-refused" ELSE IF e.o.e = "" THEN "bad-change-accepted" ELSE "error-kind",
                     e.o.e \in (CASE r.e = "" -> {""} [] r.e = "index" -> {"IndexError"} [] OTHER -> {"ValueError"}))
              \cup Clause(IF r.e = "" THEN "octets" ELSE "changed-by-refusal", e.o.enc = (IF e.ev = "ut" THEN Tail(en) ELSE en))
              \cup Clause("bits", e.o.bits = Value(r.c) /\ e.o.len = r.c.n /\ e.o.text = BitCodes(r.c))]
=============================================================================

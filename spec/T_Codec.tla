------------------------------ MODULE T_Codec -------------------------------
(* Records of the three codecs of the COSEM data types and of their length   *)
(* octets.                                                                   *)
EXTENDS Axdr, TraceBase

Sc0 == 0
Flavour(f) == CASE f = "cdt" -> CdtF [] f = "ut" -> UtF [] f = "pdu" -> PduF

\* what a reader may raise for octets that are no value
Refusals(f) == IF f = "pdu" THEN {"ValueError", "BufferError"} ELSE {"ValueError"}

JudgeLen(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "lenenc" -> Clause("length-octets", e.o.e = "" /\ e.o.b = LenEncM(e.mag))
                           \cup Clause("length-size", e.o.n = Len(LenEncM(e.mag)))
     [] e.ev = "lendec" ->
          LET r == LenDec(e.s)
          IN IF r.ok THEN Clause("length-value", e.o.e = "" /\ e.o.mag = r.mag /\ e.o.rest = Drop(e.s, r.used))
             ELSE Clause("bad-length-accepted", e.o.e # "") \cup Clause("error-kind", e.o.e \in {""} \cup Refusals(e.f))]

JudgeCodec(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "dec" ->
          LET r == Dec(Flavour(e.f), e.s)
          IN IF r.ok
             THEN IF e.o.e # "" THEN {"good-value-refused"}
                  ELSE Clause("value", e.o.val = r.val)
                       \cup Clause(IF e.f = "ut" /\ Len(Enc(r.val)) + Len(r.rest) < Len(e.s) THEN "rest-after-long-length-octets" ELSE "rest", e.o.rest = r.rest)
                       \cup Clause("encoding", e.o.enc = Enc(r.val))
                       \cup Clause("size", e.o.n = Len(Enc(r.val)))
                       \cup Clause("copy", e.o.copy = Enc(r.val))
                       \cup Clause("equality", e.o.eq)
             ELSE IF r.compact THEN Clause("bad-value-accepted", e.o.e # "") \cup Clause("compact-array-error-kind", e.o.e \in {""} \cup Refusals(e.f))
             ELSE Clause("bad-value-accepted", e.o.e # "") \cup Clause("error-kind", e.o.e \in {""} \cup Refusals(e.f))
     [] e.ev = "put" ->
          \* a value put together from its parts: its octets
          Clause("construction-failed", e.o.e = "")
          \cup (IF e.o.e = "" THEN Clause("encoding", e.o.enc = Enc(e.val)) \cup Clause("size", e.o.n = Len(Enc(e.val))) ELSE {})]
=============================================================================

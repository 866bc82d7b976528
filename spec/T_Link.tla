------------------------------- MODULE T_Link ------------------------------
(* Records of the negotiation object and of the LLC header code.             *)
EXTENDS Negotiation, Llc, TraceBase

Sn0 == Default                       \* the parameters a new object has

\* e.o: [e, p, offer] - the error, the parameters and the offer afterwards
Same(e, p) == Clause("parameters", e.o.p = p) \cup Clause("offer", e.o.oe = "" /\ e.o.offer = Offer(p) /\ e.o.len = Len(Offer(p)))

JudgeNeg(p, e) ==
  CASE e.ev = "new" -> [st |-> e.p, why |-> Clause("construction-failed", e.o.e = "") \cup Same(e, e.p)]
    [] e.ev = "set" -> LET q == [p EXCEPT ![e.f] = e.v]
                       IN [st |-> q, why |-> Clause("setting-failed", e.o.e = "") \cup Same(e, q)]
    [] e.ev = "offer" -> [st |-> p, why |-> Same(e, p)]
    [] e.ev = "ua" -> LET r == Accept(e.c)
                          q == AfterUA(p, e.c)
                      IN [st |-> q,
                          why |-> Clause(IF r.ok THEN "good-answer-refused" ELSE "bad-answer-accepted", (e.o.e = "") = r.ok)
                                  \cup Clause("error-kind", e.o.e \in {"", "ValueError"})
                                  \cup Same(e, q)]

JudgeLlc(p, e) ==
  [st |-> p,
   why |-> CASE e.ev = "llcmk" ->
                  Clause("llc-octets", e.o.e = "" /\ e.o.bytes = LlcCmd(e.apdu) /\ e.o.info = e.apdu /\ e.o.len = Len(e.apdu) + 3)
             [] e.ev = "llcrd" ->
                  IF LlcOk(e.bytes) THEN Clause("llc-apdu", e.o.e = "" /\ e.o.info = LlcApdu(e.bytes))
                                         \cup Clause("llc-octets", e.o.bytes = e.bytes /\ e.o.len = Len(e.bytes))
                  ELSE Clause("bad-llc-header-accepted", e.o.e # "") \cup Clause("error-kind", e.o.e \in {"", "ValueError"})]
=============================================================================

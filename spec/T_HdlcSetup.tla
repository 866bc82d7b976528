----------------------------- MODULE T_HdlcSetup ----------------------------
(* Records of HDLC setup objects.  State: link parameters and address.       *)
EXTENDS HdlcSetup, TraceBase

Fresh == [p |-> Factory, a |-> 16]
Shows(q, o) == Clause("parameters", o.p = q.p) \cup Clause("others", o.rest = <<5, 25, 120, q.a>>)
               \cup Clause("sent", \A f \in DOMAIN q.p : o.sent[f] = Sent(q.p, f)) \cup Clause("address", o.addr = (IF q.a = 0 THEN -1 ELSE q.a))
Step(q, r, o) == LET n == IF r.ok THEN [q EXCEPT !.p = r.p] ELSE q
                 IN [st |-> n, why |-> Clause(IF r.ok THEN "refused" ELSE "not-refused", o.e = (IF r.ok THEN "" ELSE "ValueError")) \cup Shows(n, o)]
JudgeSetup(q, e) ==
  CASE e.ev = "new" -> [st |-> Fresh, why |-> Shows(Fresh, e.o)]
    [] e.ev = "set" -> Step(q, Put(q.p, e.f, e.v), e.o)
    [] e.ev = "info" -> Step(q, Told(q.p, e.c), e.o)
    [] e.ev = "addr" -> LET n == [q EXCEPT !.a = e.v] IN [st |-> n, why |-> Shows(n, e.o) \cup Clause("refused", e.o.e = "")]
=============================================================================

------------------------------ MODULE T_Linked ------------------------------
(* Records of objects whose attributes follow one another: what every value  *)
(* reads as and holds after each writing.                                    *)
EXTENDS Linked, TraceBase

Start == [q |-> Register(1, <<>>), m |-> NoLimits, n |-> NoMonitor, rows |-> <<>>, acts |-> 0, x |-> NoSecret]
\* o.vs, o.su encodings; o.ts texts; o.rs readings with the unit's text o.u
RegShows(q, o) ==
  Clause("register-octets", o.vs = q.vs /\ o.su = SUEnc(q))
  \cup Clause("register-text", \A a \in DOMAIN q.vs : IsNumber(q.vs[a]) => o.ts[a] = ReadOf(q, a))
  \cup Clause("register-report", \A a \in DOMAIN q.vs : IsNumber(q.vs[a]) => o.rs[a] = ReadOf(q, a) \o (IF q.su = <<>> THEN <<>> ELSE <<32>> \o o.u))
LimShows(s, o) ==
  Clause("limit-octets", o.lim = s.m.ts)
  \cup Clause("limit-text", \A i \in 1..3 : s.m.k # 0 => o.lts[i] = Read(s.m.ts[i], LimitPower(s.m, s.q)))
All(s, o) == (IF s.q.us = <<>> THEN {} ELSE RegShows(s.q, o.reg) \cup LimShows(s, o.reg))
             \cup Clause("threshold-octets", s.n.t # -1 => o.mon = s.n.ts)
             \cup Clause("rows", o.rows = s.rows) \cup Clause("secret", o.secret = IF s.x.m = -1 THEN <<>> ELSE <<s.x.c>>)
Settled(ok, s, o) == [st |-> s, why |-> Clause(IF ok THEN "good-refused" ELSE "bad-accepted", (o.e = "") = ok)
                                        \cup Clause("error-kind", o.e \in {"", "ValueError", "EmptyObj", "UserfulTypesException"}) \cup All(s, o)]
JudgeLinked(s, e) ==
  CASE e.ev = "new" -> Settled(TRUE, [s EXCEPT !.q = Register(e.k, e.us)], e.o)
    [] e.ev = "value" -> LET r == ValueSet(s.q, e.a, e.s) IN Settled(r.ok, [s EXCEPT !.q = r.q], e.o)
    [] e.ev = "scaler" -> Settled(TRUE, [s EXCEPT !.q = ScalerSet(s.q, e.p, e.u)], e.o)
    [] e.ev = "text" -> LET r == TextSet(s.q, e.a, e.t) IN Settled(r.ok, [s EXCEPT !.q = r.q], e.o)
    \* a value for the attribute, made but not yet written
    [] e.ev = "encode" -> LET r == TextSet(s.q, e.a, e.t) v == Settled(r.ok, s, e.o)
                          IN [v EXCEPT !.why = @ \cup (IF r.ok /\ e.o.e = "" THEN Clause("made-octets", e.o.enc = r.q.vs[e.a])
                                                                                  \cup Clause("made-text", e.o.text = ReadOf(r.q, e.a)) ELSE {})]
    [] e.ev = "copy" -> [st |-> s, why |-> Clause("copy", e.o.e = "" /\ e.o.enc = s.q.vs[e.a]) \cup All(s, e.o)]
    [] e.ev = "watch" -> Settled(TRUE, [s EXCEPT !.m = Watch(s.m, s.q, s.q.k)], e.o)
    [] e.ev = "limit" -> LET r == LimitSet(s.m, e.i, e.s) IN Settled(r.ok, [s EXCEPT !.m = r.q], e.o)
    [] e.ev = "limittext" -> LET r == LimitText(s.m, s.q, e.i, e.t) IN Settled(r.ok, [s EXCEPT !.m = r.q], e.o)
    [] e.ev = "monitor" -> Settled(TRUE, [s EXCEPT !.n = MonitorOf(s.q)], e.o)
    [] e.ev = "thresholds" -> LET r == ThresholdsSet(s.n, e.ss) IN Settled(r.ok, [s EXCEPT !.n = r.q], e.o)
    [] e.ev = "rows" -> Settled(TRUE, [s EXCEPT !.rows = e.rows], e.o)
    [] e.ev = "acts" -> Settled(TRUE, [s EXCEPT !.acts = e.n, !.rows = Fitted(@, e.n)], e.o)
    [] e.ev = "mech" -> Settled(TRUE, [s EXCEPT !.x = MechSet(@, e.m)], e.o)
    [] e.ev = "secret" -> LET r == SecretSet(s.x, e.c) IN Settled(r.ok, [s EXCEPT !.x = r.q], e.o)
=============================================================================

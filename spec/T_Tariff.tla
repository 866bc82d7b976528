------------------------------ MODULE T_Tariff ------------------------------
(* Records of look-ups in activity calendars at given moments and of their   *)
(* validation.                                                               *)
EXTENDS Tariff, TraceBase

Nothing == 0
\* x: what was found, s: the places that are right
Found(x, s) == IF s = {} THEN x.e = "AttributeError" ELSE x.e = "" /\ x.i \in s
\* several are right, for instance because a name repeats: dead: one of them leads nowhere
Led(x, s, dead) == (dead /\ x.e = "AttributeError") \/ Found(x, s)
JudgeTariff(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "look" ->
          LET cal == e.cal p == e.now o == e.o
              seasons == Current(cal, p)
              weeks == UNION {WeekOf(cal, i) : i \in seasons}
              spec == {cal.spec[i].id : i \in Specials(cal, p)}
              acts == IF o.day.i > 0 THEN Actions(cal.days[o.day.i], p) ELSE {}
          IN Clause("season", Found(o.season, seasons)) \cup Clause("week", Led(o.week, weeks, \E i \in seasons : WeekOf(cal, i) = {}))
             \cup Clause("special-day", o.spec.e = "" /\ IF spec = {} THEN o.spec.v = -1 ELSE o.spec.v \in spec)
             \cup Clause("day", Led(o.day, Days(cal, p), (\E i \in seasons : WeekOf(cal, i) = {}) \/ \E x \in DayIds(cal, p) : \A d \in DOMAIN cal.days : cal.days[d].id # x))
             \cup Clause("action", Found(o.action, acts))
             \cup Clause("rate", IF acts = {} THEN o.rate.e = "AttributeError" ELSE o.rate.e = "" /\ o.rate.v \in {cal.days[o.day.i].acts[i].sel : i \in acts})
     [] e.ev = "validate" ->
          LET a == FirstBad(e.cal, 5)
              b == IF a # 0 THEN a ELSE FirstBad(e.pas, 9)
          IN Clause("validation", e.o.i = b /\ e.o.e = (IF b = 0 THEN "" ELSE "invalid"))]
=============================================================================

------------------------------- MODULE T_Dates -----------------------------
(* Records of date, time and date-time cells: made, set as a whole or by     *)
(* field, shown; and of the latest instants their patterns match.            *)
EXTENDS Dates, TraceBase

NoDate == [k |-> "none", pre |-> <<>>, c |-> <<>>]

\* e.o: [e, c, enc, text, f: fields by name, py: Python counterpart, pye, tz, tze, all]
FieldShown(f, k, c, v) ==
  LET x == IF f = "year" THEN YearOf(c) ELSE IF f = "second" THEN c[FieldPos(k, "minute") + 1] ELSE c[FieldPos(k, f)]
  IN IF x = (IF f = "year" THEN 65535 ELSE 255) THEN v = -1
     ELSE IF x \in Special /\ f \in {"month", "day"} THEN TRUE         \* the two special codes have no number
     ELSE v = x
Shows(q, o) ==
  LET k == q.k c == q.c
  IN Clause("contents", o.c = c) \cup Clause("encoding", o.enc = q.pre \o c) \cup Clause("text", o.text = TextOf(k, c))
     \cup (IF o.c # c THEN {} ELSE
             Clause("fields", \A f \in DOMAIN o.f : FieldShown(f, k, c, o.f[f]))
             \cup Clause("python-value", HasPy(k, c) => o.py = ToPy(k, c))
             \cup (IF k = "dt" THEN Clause("zone", o.tz = (IF Dev(c) = Open THEN <<>> ELSE IF Dev(c) \in -720..720 THEN <<Dev(c)>> ELSE <<Open>>))
                                    \cup Clause("all-open", o.all = (c = AllOpen)) ELSE {}))
Offer(k, pre, e) ==
  CASE e.how = "octets" -> LET n == Len(pre) IN IF Len(e.s) >= n + Size(k) /\ SubSeq(e.s, 1, n) = pre /\ Valid(k, SubSeq(e.s, n + 1, n + Size(k))) THEN Good(SubSeq(e.s, n + 1, n + Size(k))) ELSE NoText
    [] e.how = "contents" -> IF Valid(k, e.s) THEN Good(e.s) ELSE NoText
    [] e.how = "text" -> Read(k, e.s)
    [] e.how = "py" -> FromPy(k, e.kind, e.p)
Verdict(r, e) == Clause(IF r.ok THEN "good-value-refused" ELSE "bad-value-accepted", (e.o.e = "") = r.ok) \cup Clause("error-kind", e.o.e \in {"", "ValueError"})
After(q, r, e) == [st |-> [q EXCEPT !.c = IF r.ok THEN r.c ELSE @], why |-> Verdict(r, e) \cup (IF r.ok \/ q.c # <<>> THEN Shows([q EXCEPT !.c = IF r.ok THEN r.c ELSE @], e.o) ELSE {})]

JudgeDate(q, e) ==
  CASE e.ev = "new" -> After([k |-> e.k, pre |-> e.pre, c |-> <<>>], Offer(e.k, e.pre, e), e)
    [] e.ev = "set" -> After(q, Offer(q.k, q.pre, e), e)
    [] e.ev = "field" -> After(q, SetField(q.k, q.c, e.f, e.v), e)
    [] e.ev = "status" -> After(q, [ok |-> TRUE, c |-> [q.c EXCEPT ![12] = e.v]], e)

JudgeNear(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "near" ->
          LET p == Shifted(SubSeq(e.p, 1, 7), e.p[8], Zone(e.c))
              d == NearDay(e.c, p)
              n == Nearest(e.c, p)
              z == <<Zone(e.c)>>
          IN Clause("nearest-day", e.o.de = "" /\ e.o.day = (IF d = <<>> THEN <<>> ELSE d \o Earliest(SubSeq(e.c, 6, 9)) \o z))
             \cup Clause("nearest-instant", e.o.e = "" /\ e.o.at = (IF n = <<>> THEN <<>> ELSE n \o z))
     [] e.ev = "neartime" -> Clause("nearest-time", e.o.e = "" /\ e.o.at = NearestTime(e.c, e.p))]
=============================================================================

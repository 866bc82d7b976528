------------------------------ MODULE T_Typing ------------------------------
(* Records of lines typed into values of every kind: after each letter the   *)
(* line and the cursor, or the refusal; what is set at the end; and how      *)
(* secrets are shown and read.                                               *)
EXTENDS Typing, TraceBase

Nothing == [k |-> [k |-> "text"], q |-> EmptyLine, rep |-> 0, cs |-> <<>>]
Refused(e) == e.o.e = "ValueError"
SecretShows(s, o) == Clause("secret-octets", o.cs = s.cs)
                     \cup Clause("secret-text", o.ts = [i \in DOMAIN s.cs |-> SecretText(s.rep, s.cs[i])])
JudgeTyping(s, e) ==
  CASE e.ev = "start" -> Ok([s EXCEPT !.k = e.k, !.q = [s |-> e.s, c |-> Len(e.s)]])
    [] e.ev = "move" -> Ok([s EXCEPT !.q.c = e.c])
    [] e.ev = "press" ->
         LET r == Checked(s.k, PutIn(s.q.s, s.q.c, e.x), s.q.c + 1)
             q1 == IF r.ok THEN [s |-> r.s, c |-> r.c] ELSE s.q
         IN [st |-> [s EXCEPT !.q = q1],
             why |-> Clause("kept", e.o.kept)
                     \cup (IF r.ok THEN IF e.o.e # "" THEN {"letter-refused"} ELSE Clause("line", e.o.s = r.s) \cup Clause("cursor", e.o.c = r.c)
                           ELSE Clause("letter-taken", Refused(e)))]
    [] e.ev = "set" ->
         LET r == ValueOf(s.k, s.q.s)
         IN [st |-> s, why |-> IF r.ok THEN Clause("value-refused", e.o.e = "")
                                            \cup Clause("value", s.k.k \in {"float", "bits", "enum", "text"} \/ e.o.v = r.c)
                               ELSE Clause("bad-value-taken", Refused(e) /\ e.o.kept)]
    [] e.ev = "secrets" -> LET s1 == [s EXCEPT !.rep = e.rep, !.cs = e.cs] IN [st |-> s1, why |-> Clause("refused", e.o.e = "") \cup SecretShows(s1, e.o)]
    [] e.ev = "rep" -> LET s1 == [s EXCEPT !.rep = e.r] IN [st |-> s1, why |-> Clause("refused", e.o.e = "") \cup SecretShows(s1, e.o)]
    [] e.ev = "secret" -> LET r == SecretRead(s.rep, e.t)
                              s1 == IF r.ok THEN [s EXCEPT !.cs[e.i] = r.c] ELSE s
                          IN [st |-> s1, why |-> Clause(IF r.ok THEN "value-refused" ELSE "bad-value-taken", IF r.ok THEN e.o.e = "" ELSE Refused(e)) \cup SecretShows(s1, e.o)]
=============================================================================

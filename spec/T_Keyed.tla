------------------------------- MODULE T_Keyed ------------------------------
(* Records of operations on the tables of activity calendars, special days   *)
(* and schedules: after each all tables of the object are seen.              *)
EXTENDS Keyed, TraceBase

NoTables == [c |-> 0]
Seen(o) == [i \in DOMAIN o.t |-> IF i \in Tables(o.c) THEN Table(o, i) ELSE <<>>]
Same(w, e) == CASE w = "" -> e = "" [] w = "index" -> e = "IndexError" [] OTHER -> e = "ValueError"
JudgeKeyed(q, e) ==
  CASE e.ev = "new" -> LET o == NewTables(ClassNo(e.ck)) IN [st |-> o, why |-> Clause("empty-at-first", e.o.tabs = Seen(o))]
    [] e.ev = "do" -> LET r == Do(q, e.p)
                      IN [st |-> r.o, why |-> Clause(IF r.e = "" THEN "refused" ELSE IF e.o.e = "" THEN "accepted" ELSE "error-kind", Same(r.e, e.o.e))
                                              \cup Clause(IF r.e = "" THEN "tables" ELSE "changed-by-refusal", e.o.tabs = Seen(r.o))]
=============================================================================

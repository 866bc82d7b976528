------------------------------- MODULE T_Image ------------------------------
(* Records of image transfer objects: each operation and what shows after it.*)
EXTENDS Image, TraceBase

Do(c, e) == CASE e.op = "new" -> Yes(Idle)
              [] e.op = "bs" -> Yes([c EXCEPT !.bs = e.v])
              [] e.op = "load" -> Load(c, e.s, e.id)
              [] e.op = "next" -> NextBlock(c)
              [] e.op = "select" -> Select(c, e.v)
              [] e.op = "clear" -> Clear(c)
JudgeImage(q, e) ==
  LET r == Do(q, e)
      c == r.c
      n == Len(c.blocks)
      o == e.o
  IN [st |-> c, why |->
      Clause(IF r.e = "" THEN "refused" ELSE "not-refused", (o.e = "") = (r.e = ""))
      \cup Clause("error-kind", o.e = r.e \/ (o.e = "") # (r.e = "") \/ (e.op = "select" /\ e.v < 0))
      \cup Clause("number", o.num = c.num /\ o.cur = c.num)
      \cup Clause("block", o.val = c.val)
      \cup Clause("size", o.size = c.size)
      \cup Clause("identifier", o.id = c.id)
      \cup Clause("count", o.n = n /\ o.exists = (n > 0))
      \cup Clause("part", IF n = 0 THEN o.part = 0 ELSE o.part * n - c.num * 10000 \in (-n)..n)]
=============================================================================

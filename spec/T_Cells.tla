------------------------------ MODULE T_Cells ------------------------------
(* Records of changeable values: simple cells with hooks, arrays and         *)
(* structures, bit strings.                                                  *)
EXTENDS Cells, TraceBase

NoCell == [k |-> "none"]
Kinds(w) == CASE w = "" -> {""} [] w = "index" -> {"IndexError"} [] w = "veto" -> {"ValueError"} [] OTHER -> {"ValueError"}
Verdict(w, e) == Clause(IF w = "" THEN "good-change-refused" ELSE IF e = "" THEN "bad-change-accepted" ELSE "error-kind", e \in Kinds(w))

\* the value of a cell nobody set
DefaultEnc(t) == <<t>> \o (IF t \in Sized \cup {4} THEN <<0>> ELSE Zeros(FixedLen[t]))

\* ------------------------------------------------------------- simple cells
\* o: [e, enc, log, tied: encoding of a copy made at the start, other: enc of ...]
JudgeSimple(q, e) ==
  CASE e.ev = "new" -> LET o == Single(e.t, e.s)
                       IN [st |-> [k |-> "simple", t |-> e.t, enc |-> o.enc, pre |-> FALSE, post |-> FALSE, twin |-> o.enc, dflt |-> e.dflt],
                           why |-> Clause("construction", o.ok /\ e.o.e = "" /\ e.o.enc = o.enc)
                                   \cup Clause("default", (e.t \notin {25, 26, 27} /\ e.named) => e.dflt = DefaultEnc(e.t)) \cup Clause("default", Single(e.t, e.dflt).ok)]
    [] e.ev = "hook" -> [st |-> [q EXCEPT !.pre = @ \/ e.pre, !.post = @ \/ e.post], why |-> Clause("value", e.o.enc = q.enc)]
    [] e.ev = "twin" -> [st |-> [q EXCEPT !.twin = q.enc], why |-> Clause("copy", e.o.e = "" /\ e.o.twin = q.enc) \cup Clause("value", e.o.enc = q.enc)]
    [] e.ev = "set" ->
         LET r == SetCell(q, e.s, e.veto)
         IN [st |-> r.c,
             why |-> Verdict(r.e, e.o.e) \cup Clause(IF r.e = "" THEN "value" ELSE "value-changed-by-refusal", e.o.enc = r.c.enc)
                     \cup Clause("hooks", e.o.log = r.log) \cup Clause("copy-changed", e.o.twin = q.twin)]
    [] e.ev = "settwin" ->     \* the copy is set: no hook of the original runs, the original stays
         LET r == SetCell([q EXCEPT !.enc = q.twin, !.pre = FALSE, !.post = FALSE], e.s, FALSE)
         IN [st |-> [q EXCEPT !.twin = r.c.enc],
             why |-> Verdict(r.e, e.o.e) \cup Clause("copy", e.o.twin = r.c.enc) \cup Clause("original-changed", e.o.enc = q.enc) \cup Clause("hooks", e.o.log = <<>>)]
    [] e.ev = "getcopy" ->     \* a changed copy at once
         LET r == SetCell([q EXCEPT !.pre = FALSE, !.post = FALSE], e.s, FALSE)
         IN [st |-> q, why |-> Verdict(r.e, e.o.e) \cup Clause("copy", r.e = "" => e.o.got = r.c.enc) \cup Clause("original-changed", e.o.enc = q.enc) \cup Clause("hooks", e.o.log = <<>>)]
    [] e.ev = "clear" -> [st |-> [q EXCEPT !.enc = q.dflt], why |-> Clause("clear", e.o.e = "" /\ e.o.enc = q.dflt)]
    [] e.ev = "poke" -> [st |-> q, why |-> Clause("poke-accepted", e.o.e = "ValueError") \cup Clause("value", e.o.enc = q.enc)]

\* --------------------------------------------------------------- containers
Whole == {"setoctets", "setlist", "setnone"}
JudgeContainer(q, e) ==
  IF e.ev = "newc" THEN
    LET c == [kind |-> e.kind, et |-> e.et, uniq |-> e.uniq, ts |-> e.ts, els |-> e.els]
    IN [st |-> c, why |-> Clause("construction", e.o.e = "" /\ e.o.els = c.els /\ e.o.enc = EncOf(IF e.kind = "array" THEN 1 ELSE 2, c.els))]
  ELSE LET r == IF q.kind = "array" THEN DoArray(q, e.op) ELSE DoStruct(q, e.op)
       IN [st |-> r.c,
           why |-> Verdict(r.e, e.o.e)
                   \cup Clause(IF r.e = "" THEN "elements" ELSE "changed-by-refusal", e.o.els = r.c.els)
                   \cup Clause("encoding", e.o.enc = EncOf(IF q.kind = "array" THEN 1 ELSE 2, r.c.els) /\ e.o.len = Len(r.c.els))
                   \cup Clause("returned", (r.e = "" /\ e.op.op \in {"pop", "get"}) => e.o.r = r.r)
                   \cup Clause("hook-after", q.kind = "array" => e.o.post = (IF r.e = "" /\ e.op.op \in Whole THEN 1 ELSE 0))]
=============================================================================

------------------------------ MODULE T_Reached -------------------------------
(* Records of what is reached by names.                                      *)
EXTENDS Reached, TraceBase

Nobody == [k |-> 0]
Refusal(w, e) == Clause(IF w = "" THEN "good-refused" ELSE "bad-accepted", (w = "") = (e = ""))
Read1(o, p, x) == Clause("value", x.e = "" /\ x.v = (IF p.m THEN o.m[p.i] ELSE o.a[p.i]))
                  \cup Clause("part", x.v = <<>> \/ (x.at = (IF p.m THEN <<>> ELSE <<p.i>>) /\ x.mat = (IF p.m THEN <<p.i>> ELSE <<>>)))
NewCols == [obs |-> <<>>, n |-> 0, rows |-> <<1, 0>>]
Whole(c) == c.names \o (IF c.el = "" THEN <<>> ELSE <<c.el>>)
ColumnSeen(c, x) == Refusal(c.e, x.e) \cup (IF c.e # "" \/ x.e # "" THEN {} ELSE
                      Clause("column-names", x.names = c.names) \cup Clause("column-element", x.el = c.el) \cup Clause("column-type", x.part = c.part))
Captured(obs, caps) == [k \in DOMAIN caps |-> Column0(obs, caps[k].ln, caps[k].i, caps[k].d)]
JudgeReached(s, e) ==
  CASE e.ev = "new" -> LET o == Thing(ClassNo(e.ck), e.ln) IN [st |-> o, why |-> Clause("new", e.o.e = "" /\ e.o.vs = o.a)]
    [] e.ev = "force" -> LET o == Force(s, e.i, e.v) IN [st |-> o, why |-> Clause("forced", e.o.e = "" /\ e.o.vs = o.a)]
    [] e.ev = "clear" -> LET bad == e.i < 2 o == IF bad THEN s ELSE Emptied(s, e.i) IN [st |-> o, why |-> Refusal(IF bad THEN "bad" ELSE "", e.o.e) \cup Clause("cleared", e.o.vs = o.a)]
    [] e.ev = "read" -> [st |-> s, why |-> Clause("unknown-name", e.n \in Usable(s.c)) \cup Read1(s, PartOf(s.c, e.n), e.o)]
    [] e.ev = "item" -> [st |-> s, why |-> LET n == IF e.m THEN Len(s.m) ELSE Len(s.a) IN IF e.i \in 1..n THEN Read1(s, Part(e.m, e.i), e.o) ELSE Refusal("index", e.o.e)]
    [] e.ev = "all" -> [st |-> s, why |-> Clause("iteration", e.o.e = "" /\ e.o.vs = s.a)
                                          \cup Clause("numbered", {e.o.ps[k] : k \in DOMAIN e.o.ps} = {[i |-> i, v |-> s.a[i]] : i \in DOMAIN s.a} /\ Len(e.o.ps) = Len(s.a))
                                          \cup Clause("numbered-methods", e.o.ms = [i \in DOMAIN s.m |-> [i |-> i, v |-> s.m[i]]])]
    \* the structures of a type: names of the elements, and where what is reached by them is
    [] e.ev = "structs" -> [st |-> s, why |-> Clause("structures", e.o.all = StructNames(e.ck, e.m, e.i))]
    [] e.ev = "struct" -> LET ns == StructNames(e.ck, e.m, e.i)[e.n]
                          IN [st |-> s, why |-> Clause("element-names", e.o.own = ns) \cup Clause("element", e.o.at = [k \in DOMAIN ns |-> <<k>>])]
    \* objects of a collection
    [] e.ev = "cols" -> Ok(NewCols)
    [] e.ev = "put" -> [st |-> [s EXCEPT !.obs = Append(@, [ln |-> e.ln, c |-> ClassNo(e.ck), on |-> e.on, at |-> e.at, mt |-> e.mt, caps |-> e.caps])], why |-> Clause("put", e.o.e = "")]
    [] e.ev = "column" -> [st |-> s, why |-> ColumnSeen(Column(s.obs, e.ln, e.i, e.d), e.o)]
    [] e.ev = "script" -> [st |-> s, why |-> LET r == ScriptText(s.obs, e.scripts, e.id) IN Refusal(r.e, e.o.e) \cup Clause("script", r.e # "" \/ e.o.t = r.t)]
    [] e.ev = "display" ->
         LET cs == Captured(s.obs, e.caps)
         IN [st |-> [s EXCEPT !.n = Len(cs), !.rows = e.o.rows],
             why |-> Clause("captured", e.o.e = "" /\ e.o.num = Len(cs)) \cup Clause("rows-stay", e.o.rows \in {s.rows, <<1, 0>>})]
    [] e.ev = "rows" ->
         LET cs == Captured(s.obs, e.caps) ok == RowsOk(s.n, e.s)
         IN [st |-> IF ok THEN [s EXCEPT !.rows = e.s] ELSE s,
             why |-> Refusal(IF ok THEN "" ELSE "bad", e.o.e) \cup Clause("rows", e.o.rows = IF ok THEN e.s ELSE s.rows)
                     \cup (IF ok /\ e.o.e = "" THEN Clause("row-columns", e.o.cols = [k \in DOMAIN cs |-> Joined(cs[k].names \o (IF cs[k].el = "" THEN <<>> ELSE <<e.els[k]>>), Dot)]
                                                                         /\ [k \in DOMAIN e.els |-> e.elt[k]] = [k \in DOMAIN cs |-> cs[k].el]) ELSE {})]
    [] OTHER -> Bad(s, "event")
=============================================================================

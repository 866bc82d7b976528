-------------------------------- MODULE T_Views -----------------------------
(* Records of views of objects.  State: the objects of a case.               *)
EXTENDS Views, TraceBase

NoObjs == <<>>
Ids(s) == [i \in DOMAIN s |-> s[i].id]
Given(e) == e.keys
Show(e, o, want) == IF o.e # "" THEN {"error"} ELSE Clause("view", o.r = want)
KeysOk(ks) == \A i \in DOMAIN ks : ks[i].k = "pattern" => PatternOk(Pattern(ks[i].p))
JudgeViews(q, e) ==
  LET o == e.o
  IN CASE e.ev = "objs" -> Ok(e.v)
       [] e.ev = "group" -> [st |-> q, why |-> Clause("error", o.e = "") \cup Clause("medium", o.m = Medium(e.n[1])) \cup Clause("group", o.g = Group(e.n))]
       [] e.ev = "pattern" -> LET p == Pattern(e.p) IN
            [st |-> q, why |-> Clause("accepted", (o.e = "") = PatternOk(p)) \cup Clause("error-kind", o.e \in {"", "ValueError"})
                               \cup Clause("match", o.e # "" \/ ~PatternOk(p) \/ o.m = [i \in DOMAIN e.ns |-> IF Matches(p, e.ns[i]) THEN 1 ELSE 0])]
       [] e.ev = "filter" -> [st |-> q, why |-> Show(e, o, Ids(Filtered(q, e.keys)))]
       [] e.ev = "sort" -> [st |-> q, why |-> Show(e, o, Ids(InOrder(q, e.mode)))]
       [] e.ev = "tree" -> [st |-> q, why |-> Show(e, o, Tree(q, e.mode))]
       [] e.ev = "attrs" -> LET g == AttrTree(q, e.keys, e.mode, e.sort, {e.af[i] : i \in DOMAIN e.af}) IN
            [st |-> q, why |-> Clause("error-kind", o.e = g.e) \cup Clause("attributes", o.e # "" \/ g.e # "" \/ o.r = g.t)]
=============================================================================

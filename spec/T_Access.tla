------------------------------- MODULE T_Access -----------------------------
(* Records of associations: lists set, rights asked.                         *)
EXTENDS Access, TraceBase

Shows(q, o) == Clause("objects", o.objs = [i \in DOMAIN q.c.objs |-> <<q.c.objs[i].n, q.c.objs[i].c, q.c.objs[i].v, q.c.objs[i].id>>])
               \cup Clause("lists", \A i \in DOMAIN o.lists : LET a == o.lists[i] IN HasAss(q, a.e) => a.n = (IF Ass(q, a.e).has THEN Len(Ass(q, a.e).list) ELSE -1))
Go(q, o, w) == [st |-> q, why |-> w \cup Shows(q, o)]
Say(q, o, g) == Go(q, o, Clause("error", (o.e = "") = (g.e = "")) \cup Clause("error-kind", o.e = "" \/ g.e = "" \/ o.e = g.e) \cup Clause("answer", o.e # "" \/ g.e # "" \/ o.r = g.r))
JudgeAccess(q, e) ==
  LET o == e.o
  IN CASE e.ev = "new" -> Go(NoAcc, o, {})
       [] e.ev = "assoc" -> Go(AddAss(q, e.e, e.v), o, Clause("refused", o.e = ""))
       [] e.ev = "rm" -> Go([q EXCEPT !.c = Remove(@, e.n)], o, {})
       [] e.ev = "list" -> LET r == SetList(q, e.e, e.list)
                           IN IF r.end THEN [st |-> r.q, why |-> Clause("impossible", o.e = "ValueError")]
                              ELSE Go(r.q, o, Clause("list", (o.e = "") = r.ok) \cup Clause("error-kind", o.e \in {"", "ValueError"}))
       [] e.ev = "sap" -> Go(Update(q, [Ass(q, e.e) EXCEPT !.sap = e.s]), o, Clause("refused", o.e = ""))
       [] e.ev = "mech" -> Go(Update(q, [Ass(q, e.e) EXCEPT !.mech = e.m]), o, Clause("mechanism", o.m = e.m))
       [] e.ev = "rd" -> Say(q, o, Readable(q, e.e, e.n, e.i, e.p))
       [] e.ev = "wr" -> Say(q, o, Writable(q, e.e, e.n, e.i, e.p))
       [] e.ev = "ac" -> Say(q, o, Accessible(q, e.e, e.n, e.i, e.g))
       [] e.ev = "amode" -> Say(q, o, Find(q, e.e, e.n, "as", e.i))
       [] e.ev = "mmode" -> Say(q, o, Find(q, e.e, e.n, "ms", e.i))
       [] e.ev = "item" -> Go(q, o, Clause("readable", o.rd = [i \in DOMAIN e.modes |-> Bit(MayRead(e.modes[i]))]) \cup Clause("writable", o.wr = [i \in DOMAIN e.modes |-> Bit(MayWrite(e.modes[i]))]))
       [] e.ev = "all" -> Go(q, o, Clause("writable-set", [e |-> o.e, r |-> o.r] \in AllWritable(Ass(q, e.e).list, e.n, {e.idx[i] : i \in DOMAIN e.idx})))
       [] e.ev = "writables" -> Go(q, o, Clause("error", o.e = "") \cup Clause("writables", {<<o.r[i][1], o.r[i][2]>> : i \in DOMAIN o.r} = WritableAll(q)))
       [] e.ev = "objects" -> Say(q, o, ObjectsOf(q, e.e))
       [] e.ev = "sapobjects" -> Say(q, o, IF BySap(q, e.s) = <<>> THEN [e |-> "ValueError", r |-> <<>>] ELSE Objects(q, BySap(q, e.s)[1].x))
       [] e.ev = "sapid" -> Say(q, o, IF BySap(q, e.s) = <<>> THEN Wrong ELSE Got(BySap(q, e.s)[1].e))
       [] e.ev = "sapass" -> Say(q, o, IF BySap(q, e.s) = <<>> THEN Wrong ELSE Got(BySap(q, e.s)[1].x.id))
=============================================================================

----------------------------- MODULE T_Collection ---------------------------
(* Records of collections (histories of operations) and of the classes a     *)
(* name accepts.                                                             *)
EXTENDS Collection, TraceBase

Row(o) == <<o.n, o.c, o.v, o.id>>
Shows(c, o) ==
  LET rows == [i \in DOMAIN c.objs |-> Row(c.objs[i])]
  IN Clause("objects", o.objs = rows)
     \cup Clause("values", o.vals = [i \in DOMAIN c.objs |-> c.objs[i].id] /\ o.len = Len(c.objs))
     \cup Clause("descriptions", o.desc = [i \in DOMAIN c.objs |-> <<c.objs[i].n, c.objs[i].c, c.objs[i].v>>])
     \cup Clause("identification", o.dlms = c.dlms /\ o.man = c.man /\ o.country = c.country /\ o.cver = c.cver /\ o.stype = c.stype
                                   /\ {<<o.sver[i][1], o.sver[i][2]>> : i \in DOMAIN o.sver} = c.sver /\ Len(o.sver) = Cardinality(c.sver) /\ o.colver = c.colver)
\* r: what should have happened
Step(r, o) == [st |-> r.c, why |-> Clause(IF r.e = "" THEN "refused" ELSE "not-refused", (o.e = "") = (r.e = ""))
                                   \cup Clause("error-kind", o.e = "" \/ r.e = "" \/ o.e = r.e)
                                   \cup Clause("object", o.id = r.id) \cup Shows(r.c, o)]
\* a question: nothing changes
Ask(c, o, w) == [st |-> c, why |-> w \cup Shows(c, o)]
Want(c, n, o, w) == Ask(c, o, w \cup Clause("absent", (o.e = "") = Has(c, n)) \cup Clause("error-kind", o.e \in {"", "NoObject"}) \cup Clause("object", o.id = IdOf(c, n)))
Ids(s) == [i \in DOMAIN s |-> s[i].id]
JudgeCollection(q, e) ==
  LET o == e.o c == q
  IN CASE e.ev = "new" -> Ask([New EXCEPT !.country = e.k], o, {})
       [] e.ev = "add" -> Step(Add(c, e.k, e.v, e.n), o)
       [] e.ev = "addm" -> Step(AddMissing(c, e.k, e.v, e.n), o)
       [] e.ev = "rm" -> LET d == Remove(c, e.n) IN [st |-> d, why |-> Shows(d, o) \cup Clause("removed", o.e = "" /\ o.b = (d # c))]
       [] e.ev \in {"get", "object2"} -> Ask(c, o, Clause("object", o.e = "" /\ o.id = IdOf(c, e.n)))
       [] e.ev = "object" -> Want(c, e.n, o, {})
       [] e.ev = "attr" -> Want(c, e.n, o, {})
       [] e.ev = "short" -> Want(c, Short[e.s], o, {})
       [] e.ev = "shortof" -> Want(c, ShortOf(e.s, e.k), o, {})
       [] e.ev = "has" -> Ask(c, o, Clause("presence", o.e = "" /\ o.b = Has(c, e.n)))
       [] e.ev = "first" -> LET hit == SelectSeq(e.ns, LAMBDA n : Has(c, n))
                            IN Ask(c, o, IF hit = <<>> THEN Clause("absent", o.e = "NoObject") ELSE Clause("object", o.e = "" /\ o.id = IdOf(c, hit[1])))
       [] e.ev = "version" -> Ask(c, o, LET s == OfClass(c, e.k) IN IF s = <<>> THEN Clause("absent", o.e # "") ELSE Clause("version", o.e = "" /\ o.id = s[1].v))
       [] e.ev = "class" -> Ask(c, o, Clause("class", o.e = "" /\ o.ids = Ids(OfClass(c, e.k))))
       [] e.ev = "versions" -> Ask(c, o, IF Mixed(c) THEN Clause("mixed", o.e = "ValueError")
                                         ELSE Clause("versions", o.e = "" /\ {o.cv[i] : i \in DOMAIN o.cv} = {<<x.c, x.v>> : x \in {c.objs[i] : i \in DOMAIN c.objs}} /\ Len(o.cv) = Cardinality(Classes(c))))
       [] e.ev = "phases" -> Ask(c, o, IF Phases(c) = 0 THEN Clause("absent", o.e = "NoObject") ELSE Clause("phases", o.e = "" /\ o.id = Phases(c)))
       [] e.ev = "dlms" -> Step(IF e.k = c.dlms THEN Done(c, 0) ELSE Refuse(c, "ValueError"), o)
       [] e.ev = "country" -> Step(IF e.k = c.country THEN Done(c, 0) ELSE Refuse(c, "ValueError"), o)
       [] e.ev = "man" -> Step(Once(c, "man", <<>>, e.x), o)
       [] e.ev = "cver" -> Step(Once(c, "cver", <<>>, e.x), o)
       [] e.ev = "stype" -> Step(ServerType(c, e.x, e.force), o)
       [] e.ev = "sver" -> Step(ServerVer(c, e.k, e.x, e.force), o)
       [] e.ev = "clear" -> Step(Done([c EXCEPT !.sver = {}], 0), o)
       [] e.ev = "colver" -> Step(IF c.colver = <<>> THEN Done([c EXCEPT !.colver = e.x], 0) ELSE Refuse(c, "ValueError"), o)
       [] e.ev = "spec" -> Step(SetSpec(c), o)

\* classes accepted by a name; x: c, v, update kind, tags, event log, scaler profile of each one accepted
NoCollection == New
JudgeObis(q, e) ==
  IF e.ev = "config" THEN [st |-> [spec |-> SpecOf(e.cfg)], why |-> {}]
  ELSE LET acc == Accepted(q.spec, e.n)
           tried == {<<e.tried[i][1], e.tried[i][2]>> : i \in DOMAIN e.tried}
           got == {<<e.o[i].c, e.o[i].v>> : i \in DOMAIN e.o}
       IN [st |-> q, why |-> Clause("too-few", (acc \cap tried) \subseteq got) \cup Clause("too-many", got \subseteq acc)
             \cup Clause("errors", \A i \in DOMAIN e.errors : e.errors[i] = "ValueError")
             \cup Clause("kind", got \subseteq acc => \A i \in DOMAIN e.o :
                    LET x == e.o[i] k == KindOf(q.spec, e.n, x.c)
                    IN (x.c = 1 => Shape(k, <<x.cl, {x.tags[j] : j \in DOMAIN x.tags}>>)) /\ x.log = Log(k) /\ x.scaler = Scaler(k))]
=============================================================================

------------------------------- MODULE T_Params -----------------------------
(* Records of parameter files: a type, a meter of it, values written, files  *)
(* saved and restored.                                                       *)
EXTENDS Params, TraceBase

NoMeter == [lib |-> NoCollection, q |-> NoCollection]
Row3(x) == <<x.n, x.c, x.v>>
Hid(o, k, i) == i \in Skipped(Cls(o.c).key) /\ ~(k = 15 /\ i = 2)
Seen(o, k) == [i \in DOMAIN o.a |-> IF Hid(o, k, i) THEN <<>> ELSE Octets(o.a[i])]
Shown(o, k, s) == [i \in DOMAIN s |-> IF Hid(o, k, i) THEN <<>> ELSE s[i]]
SameObjects(q, o) == o.objs # <<>> /\ [i \in DOMAIN o.objs |-> Row3(o.objs[i])] = [i \in DOMAIN q.c.objs |-> Row3(q.c.objs[i])]
SameValues(q, o) == \A i \in DOMAIN o.objs : Shown(q.obs[i], q.c.objs[i].c, o.objs[i].a) = Seen(q.obs[i], q.c.objs[i].c)
SameHeader(q, o) == o.dlms = q.c.dlms /\ o.man = q.c.man /\ o.country = q.c.country /\ o.cver = q.c.cver /\ o.stype = q.c.stype
                    /\ {<<o.sver[i][1], o.sver[i][2]>> : i \in DOMAIN o.sver} = q.c.sver
Compare(q, o, pre) == IF ~SameObjects(q, o) THEN {pre \o "-objects"} ELSE Clause(pre \o "-identification", SameHeader(q, o)) \cup Clause(pre \o "-values", SameValues(q, o))
Vis(q, nd) == {nd.attrs[j] : j \in {j \in DOMAIN nd.attrs : LET k == At(q, nd.n) IN ~Hid(q.obs[k], q.c.objs[k].c, nd.attrs[j].i)}}
JudgeParams(q, e) ==
  CASE e.ev = "type" -> LET r == LoadOf(e.doc) IN [st |-> [q EXCEPT !.lib = r.q], why |-> Clause("type", (e.o.e = "") = (r.e = ""))]
    [] e.ev = "meter" -> LET m == Meter(q.lib, e.t, e.v) IN [st |-> [q EXCEPT !.q = m], why |-> IF e.o.e # "" THEN {"no-meter"} ELSE Compare(m, e.o, "meter")]
    [] e.ev = "write" ->
         LET k == At(q.q, e.n) r == SetAttr(q.q.obs[k], e.i, e.s) n == SetOf(q.q, k, e.i, e.s)
         IN [st |-> [q EXCEPT !.q = n], why |-> Clause("written", (e.o.e = "") = (r.e = "") /\ Shown(n.obs[k], q.q.c.objs[k].c, e.o.a) = Seen(n.obs[k], q.q.c.objs[k].c))]
    [] e.ev = "forget" -> [st |-> [q EXCEPT !.q.obs[At(q.q, e.n)].a[e.i] = Fresh], why |-> {}]
    [] e.ev = "save" ->
         IF ~CanSave(q.lib, q.q, e.id) THEN [st |-> q, why |-> {}]
         ELSE LET f == SavedFile(q.lib, q.q, e.id) d == e.o.doc
                  shows(nd) == Vis(q.q, nd) # {}
                  want == SelectSeq(f.nodes, shows)
              IN [st |-> q,
                  why |-> IF e.o.e # "" THEN {"save-failed"}
                          ELSE IF ~e.o.saved THEN Clause("nothing-saved", f.nodes = <<>>) \cup Clause("file-of-nothing", ~e.o.file)
                          ELSE IF f.nodes = <<>> THEN {"saved-the-type"}
                          ELSE IF \E i \in DOMAIN d.nodes : ~Col!Has(q.q.c, d.nodes[i].n) THEN {"saved-stranger"}
                          ELSE LET got == SelectSeq(d.nodes, shows)
                               IN Clause("saved-head", d.root = f.root /\ d.fmt = f.fmt /\ [d.h EXCEPT !.sver = <<>>] = [f.h EXCEPT !.sver = <<>>]
                                                       /\ {<<d.h.sver[i][1], d.h.sver[i][2]>> : i \in DOMAIN d.h.sver} = q.q.c.sver)
                                  \cup Clause("saved-objects", [i \in DOMAIN got |-> got[i].n] = [i \in DOMAIN want |-> want[i].n])
                                  \cup Clause("saved-values", Len(got) = Len(want) => \A i \in DOMAIN want : got[i].n = want[i].n => Vis(q.q, got[i]) = Vis(q.q, want[i]))]
    [] e.ev = "restore" ->
         LET r == Restore(q.q, e.doc)
         IN [st |-> [q EXCEPT !.q = r.q],
             why |-> Clause("restored-or-refused", (e.o.e = "") = (r.e = "")) \cup Clause("error-kind", e.o.e \in {"", r.e}) \cup Compare(r.q, e.o, IF r.e = "" THEN "restored" ELSE "refused")]
=============================================================================

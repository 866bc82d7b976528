------------------------------ MODULE T_Library -----------------------------
(* Records of the type library: trees of files and what is found in them,    *)
(* files loaded, collections saved and copied, copies changed.               *)
EXTENDS Library, TraceBase

NoLibrary == [q |-> NoCollection, k |-> NoCollection, tree |-> [mans |-> <<>>, types |-> <<>>, files |-> <<>>]]
Row3(x) == <<x.n, x.c, x.v>>
\* values the other specifications do not leave to themselves
Seen(o, k) == [i \in DOMAIN o.a |-> IF i \in Skipped(Cls(o.c).key) /\ ~(k = 15 /\ i = 2) THEN <<>> ELSE Octets(o.a[i])]
Shown(o, k, s) == [i \in DOMAIN s |-> IF i \in Skipped(Cls(o.c).key) /\ ~(k = 15 /\ i = 2) THEN <<>> ELSE s[i]]
SameObjects(q, o) == o.objs # <<>> /\ [i \in DOMAIN o.objs |-> Row3(o.objs[i])] = [i \in DOMAIN q.c.objs |-> Row3(q.c.objs[i])]
SameValues(q, o) == \A i \in DOMAIN o.objs : Shown(q.obs[i], q.c.objs[i].c, o.objs[i].a) = Seen(q.obs[i], q.c.objs[i].c)
SameHeader(q, o) == o.dlms = q.c.dlms /\ o.man = q.c.man /\ o.country = q.c.country /\ o.cver = q.c.cver /\ o.stype = q.c.stype /\ o.colver = q.c.colver
Same(k, w) == k = w \/ {k, w} \subseteq Alike
SameClasses(q, o) == \A i \in DOMAIN o.objs : Same(o.objs[i].key, Cls(q.obs[i].c).key)
\* first who is there, then what they hold
Compare(q, o) == Clause("identification", SameHeader(q, o)) \cup Clause("values", SameValues(q, o))
Judged(doc, e) ==
  LET r == LoadOf(doc)
  IN IF r.e # "" THEN [st |-> r.q, why |-> Clause("bad-file-accepted", e.o.e # "") \cup Clause("error-kind", e.o.e \in {"", r.e})]
     ELSE IF e.o.e # "" THEN [st |-> r.q, why |-> {"file-refused"}]
     ELSE [st |-> r.q, why |-> IF ~SameObjects(r.q, e.o) THEN {"objects"} ELSE IF ~SameClasses(r.q, e.o) THEN {"classes"} ELSE Compare(r.q, e.o)]
Version(s) == Vs!Parse(s)
JudgeLibrary(q, e) ==
  CASE e.ev = "tree" ->
         [st |-> [q EXCEPT !.tree = e.tree],
          why |-> LET want == Held(e.tree) IN Clause("library", e.o.e = "" /\ {<<e.o.held[i].m, e.o.held[i].t, e.o.held[i].f>> : i \in DOMAIN e.o.held} = {<<x[1], x[2], x[4]>> : x \in want}
                                          /\ Len(e.o.held) = Cardinality(want))]
    [] e.ev = "find" ->
         [st |-> q, why |-> LET ok == Suiting(q.tree, e.m, e.t, Version(e.v))
                            IN Clause("found-none", (e.o.e = "") = (ok # {})) \cup Clause("error-kind", e.o.e \in {"", "NoConfig"}) \cup Clause("file", e.o.e = "" => e.o.f \in ok)]
    [] e.ev = "take" ->
         LET j == Judged(e.doc, [e EXCEPT !.o.e = ""]) c == CopyOf(j.st)
         IN IF e.o.e # "" \/ j.why \cap {"objects", "classes"} # {} THEN [st |-> q, why |-> {"taken-collection"}]
            ELSE [st |-> [q EXCEPT !.q = j.st, !.k = c],
                  why |-> Clause("taken-file", e.o.f \in Suiting(q.tree, e.m, e.t, Version(e.v))) \cup Compare([c EXCEPT !.c.stype = e.t], e.o)]
    [] e.ev = "load" -> LET j == Judged(e.doc, e) IN [st |-> [q EXCEPT !.q = j.st], why |-> j.why]
    [] e.ev = "identify" -> [st |-> [q EXCEPT !.q.c = Col!ServerVer(q.q.c, e.i, e.v, FALSE).c], why |-> Clause("refused", e.o.e = "")]
    [] e.ev = "save" ->
         IF ~Savable(q.q) THEN [st |-> q, why |-> {}]
         ELSE LET f == FileOf(q.q) d == e.o.doc
              IN [st |-> q, why |-> IF e.o.e # "" THEN {"save-failed"}
                    ELSE Clause("saved-head", d.root = f.root /\ d.fmt = f.fmt /\ [d.h EXCEPT !.sver = <<>>] = f.h /\ {<<d.h.sver[i][1], d.h.sver[i][2]>> : i \in DOMAIN d.h.sver} = q.q.c.sver)
                         \cup Clause("saved-objects", [i \in DOMAIN d.nodes |-> <<d.nodes[i].n, d.nodes[i].v>>] = [i \in DOMAIN f.nodes |-> <<f.nodes[i].n, f.nodes[i].v>>])
                         \cup Clause("saved-values", LET vis(nd) == SelectSeq(nd.attrs, LAMBDA a : \/ (nd.v >= 0 /\ a.i = 2)
                                                                                                   \/ a.i \notin Skipped(Cls(q.q.obs[At(q.q, nd.n)].c).key))
                                                     IN Len(d.nodes) = Len(f.nodes) => \A i \in DOMAIN f.nodes : d.nodes[i].n = f.nodes[i].n => vis(d.nodes[i]) = vis(f.nodes[i]))]
    [] e.ev = "copy" ->
         IF ~Copyable(q.q) THEN [st |-> q, why |-> {}]
         ELSE LET c == CopyOf(q.q)
              IN IF e.o.e # "" THEN [st |-> q, why |-> {"copy-failed"}]
                 ELSE [st |-> [q EXCEPT !.k = c], why |-> IF ~SameObjects(c, e.o) THEN {"objects"} ELSE IF ~SameClasses(c, e.o) THEN {"classes"} ELSE Compare(c, e.o)]
    \* an object added to the copy
    [] e.ev = "grow" ->
         LET r == Col!Add(q.k.c, e.c, e.v, e.n) n == Filled(q.k, r.c) new == Len(n.obs)
         IN IF r.e # "" THEN [st |-> q, why |-> Clause("added", e.o.e = r.e)]
            ELSE [st |-> [q EXCEPT !.k = n],
                  why |-> IF e.o.e # "" THEN {"not-added"} ELSE IF ~Same(e.o.key, Cls(n.obs[new].c).key) THEN {"class"}
                          ELSE Clause("added-value", Shown(n.obs[new], e.c, e.o.a) = Seen(n.obs[new], e.c)) \cup Clause("source-grown", e.o.size = Len(q.q.obs))]
    \* a value for an object of the copy: the source does not notice
    [] e.ev = "touch" ->
         LET k == At(q.k, e.n) r == SetAttr(q.k.obs[k], e.i, e.s)
         IN [st |-> [q EXCEPT !.k.obs[k] = r.o],
             why |-> Clause("touch", (e.o.e = "") = (r.e = "")) \cup Clause("copy-value", Shown(r.o, 0, e.o.copy) = Seen(r.o, 0))
                     \cup Clause("source-changed", Shown(q.q.obs[k], 0, e.o.src) = Seen(q.q.obs[k], 0))]
=============================================================================

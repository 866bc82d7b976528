------------------------------ MODULE T_Template ----------------------------
(* Records of templates: types, meters of them, values written, templates    *)
(* saved and read.                                                           *)
EXTENDS Template, TraceBase

NoMeters == [libs |-> <<>>, qs |-> <<>>]
Row3(x) == <<x.n, x.c, x.v>>
Hid(o, k, i) == i \in Skipped(Cls(o.c).key) /\ ~(k = 15 /\ i = 2)
Seen(o, k) == [i \in DOMAIN o.a |-> IF Hid(o, k, i) THEN <<>> ELSE Octets(o.a[i])]
Shown(o, k, s) == [i \in DOMAIN s |-> IF Hid(o, k, i) THEN <<>> ELSE s[i]]
SameObjects(q, o) == o.objs # <<>> /\ [i \in DOMAIN o.objs |-> Row3(o.objs[i])] = [i \in DOMAIN q.c.objs |-> Row3(q.c.objs[i])]
SameValues(q, o) == \A i \in DOMAIN o.objs : Shown(q.obs[i], q.c.objs[i].c, o.objs[i].a) = Seen(q.obs[i], q.c.objs[i].c)
\* a new meter of the type of that maker, type and firmware
NewOf(libs, h) == LET i == CHOOSE i \in DOMAIN libs : libs[i].man = h.man /\ libs[i].t = h.stype /\ libs[i].v = h.sver
                      c == CopyOf(libs[i].q) IN [c EXCEPT !.c = Col!ServerType(@, h.stype, FALSE).c]
KnownType(libs, h) == \E i \in DOMAIN libs : libs[i].man = h.man /\ libs[i].t = h.stype /\ libs[i].v = h.sver
Rows(used) == {<<used[k].n, {used[k].s[j] : j \in DOMAIN used[k].s}>> : k \in DOMAIN used}
ReadAs(libs, e) ==
  LET qs == [k \in DOMAIN e.doc.cols |-> LET n == NewOf(libs, e.doc.cols[k]) IN IF e.decode THEN Received(n, e.vals, k) ELSE ReceivedOctets(n, e.vals)]
  IN IF e.o.e # "" THEN {"not-read"}
     ELSE Clause("used", Rows(e.o.used) = UsedIn(e.doc.objs)) \cup Clause("verified", e.o.verified = e.doc.verified)
          \cup (IF Len(e.o.cols) # Len(qs) THEN {"collections"}
                ELSE UNION {IF ~SameObjects(qs[k], e.o.cols[k]) THEN {"objects"} ELSE Clause("values", SameValues(qs[k], e.o.cols[k])) : k \in DOMAIN qs})
JudgeTemplate(q, e) ==
  CASE e.ev = "types" -> [st |-> [q EXCEPT !.libs = [i \in DOMAIN e.types |-> [man |-> e.types[i].man, t |-> e.types[i].t, v |-> e.types[i].v, q |-> LoadOf(e.types[i].doc).q]]], why |-> Clause("types", e.o.e = "")]
    [] e.ev = "meters" -> [st |-> [q EXCEPT !.qs = [k \in DOMAIN e.hs |-> NewOf(q.libs, e.hs[k])]], why |-> Clause("no-meter", e.o.e = "")]
    [] e.ev = "write" ->
         LET m == q.qs[e.k] k == At(m, e.n) r == SetAttr(m.obs[k], e.i, e.s) n == SetOf(m, k, e.i, e.s)
         IN [st |-> [q EXCEPT !.qs[e.k] = n], why |-> Clause("written", (e.o.e = "") = (r.e = "") /\ Shown(n.obs[k], m.c.objs[k].c, e.o.a) = Seen(n.obs[k], m.c.objs[k].c))]
    [] e.ev = "clear" -> [st |-> [q EXCEPT !.qs[e.k].obs[At(q.qs[e.k], e.n)].a[e.i] = Fresh], why |-> {}]
    \* texts: the scalars of the values chosen, as [n, i, ls (texts)]
    [] e.ev = "save" ->
         LET d == e.o.doc
             TextsOf(n, i) == e.texts[CHOOSE j \in DOMAIN e.texts : e.texts[j].n = n /\ e.texts[j].i = i]
             want == {<<p[1], p[2], TextTree(ValueIn(q.qs, p[1], p[2]), TextsOf(p[1], p[2]).ls, 1)>> : p \in Chosen(e.used)}
             wide == SelectSeq([j \in DOMAIN d.objs |-> j], LAMBDA j : d.objs[j].attrs # <<>>)
             got == UNION {{<<d.objs[j].n, d.objs[j].attrs[a].i, d.objs[j].attrs[a].tree>> : a \in DOMAIN d.objs[j].attrs} : j \in {wide[x] : x \in DOMAIN wide}}
             count == FoldLeft(LAMBDA a, j : a + Len(d.objs[j].attrs), 0, [j \in DOMAIN d.objs |-> j])
         IN [st |-> q,
             why |-> IF ~Complete(q.qs, e.used) THEN Clause("saved-part", e.o.e = "ValueError" /\ ~e.o.file)
                     ELSE IF e.o.e # "" THEN {"save-failed"}
                     ELSE Clause("head", d.root = "template.objects" /\ d.verified = e.verified /\ d.cols = e.hs)
                          \cup Clause("saved-names", {d.objs[j].n : j \in DOMAIN d.objs} = {e.used[k].n : k \in DOMAIN e.used})
                          \cup Clause("saved-texts", got = want) \cup Clause("saved-once", count = Cardinality(want))]
    \* vals: what the file says, as values of module Template
    [] e.ev = "read" ->
         [st |-> q,
          why |-> IF e.doc.root # "template.objects" THEN Clause("bad-file-read", e.o.e = "ValueError")
                  ELSE IF ~(\A k \in DOMAIN e.doc.cols : KnownType(q.libs, e.doc.cols[k])) THEN Clause("unknown-type-read", e.o.e = "NoConfig")
                  ELSE IF e.doc.fmt \notin {<<4, 0>>, <<4, 1>>} THEN Clause("bad-format-read", e.o.e = "VersionError")
                  ELSE IF \E j \in DOMAIN e.doc.objs : e.doc.objs[j].n = <<>> THEN Clause("bad-name-read", e.o.e = "ValueError")
                  ELSE ReadAs(q.libs, e)]
    \* the format for one type: texts or octets; an object the type has not ends the reading
    [] e.ev = "read3" ->
         [st |-> q,
          why |-> IF e.doc.root # "template.objects" THEN Clause("bad-file-read", e.o.e = "ValueError")
                  ELSE IF ~KnownType(q.libs, e.doc.cols[1]) THEN Clause("unknown-type-read", e.o.e = "NoConfig")
                  ELSE IF e.doc.fmt # <<4, 0>> THEN Clause("bad-format-read", e.o.e = "VersionError")
                  ELSE IF \E j \in DOMAIN e.doc.objs : e.doc.objs[j].n = <<>> \/ ~Col!Has(NewOf(q.libs, e.doc.cols[1]).c, e.doc.objs[j].n) THEN Clause("bad-name-read", e.o.e = "ValueError")
                  ELSE ReadAs(q.libs, e)]
=============================================================================

-------------------------------- MODULE Access ------------------------------
(* Access rights: association objects hold lists of visible objects with a   *)
(* mode for every attribute and method.                                      *)
(* List element: [n, c, v, as, ms] (name, class, version, <<index, mode>> of *)
(* attributes and of methods).  Policy: <<0, number>> of security suites     *)
(* before, <<1, flags>> of the later one.                                    *)
EXTENDS Collection

\* associations known: name -> [has (a list was set), list, sap, mech]; mech -1: not known
NoAcc == [c |-> New, as |-> {}]
AssName(e) == <<0, 0, 40, 0, e, 255>>
HasAss(q, e) == Has(q.c, AssName(e)) /\ At(q.c, AssName(e)).c = 15
Ass(q, e) == (CHOOSE x \in q.as : x.id = IdOf(q.c, AssName(e)))
FreshAss(id, e) == [id |-> id, has |-> FALSE, list |-> <<>>, sap |-> IF e <= 4 THEN 16 * e ELSE 16, mech |-> -1]
\* associations that came to the collection
Come(q) == LET ids == {x.id : x \in q.as} IN
           [q EXCEPT !.as = @ \cup {FreshAss(o.id, o.n[5]) : o \in {q.c.objs[i] : i \in {i \in DOMAIN q.c.objs : q.c.objs[i].c = 15 /\ q.c.objs[i].id \notin ids}}}]
Update(q, x) == [q EXCEPT !.as = {y \in @ : y.id # x.id} \cup {x}]
\* associations in the order of the collection, the current one not counted
Associations(q) == LET s == SelectSeq(q.c.objs, LAMBDA o : o.c = 15 /\ o.n[5] # 0)
                   IN [i \in DOMAIN s |-> [e |-> s[i].n[5], x |-> CHOOSE x \in q.as : x.id = s[i].id]]

\* a new association object comes with no list
AddAss(q, e, v) ==
  Come([q EXCEPT !.c = Add(q.c, 15, v, AssName(e)).c])
RECURSIVE AddAll(_, _)
\* [c, ok]: objects of the list that are missing are added, in the order of the list
AddAll(c, s) == IF s = <<>> THEN [c |-> c, ok |-> TRUE]
                ELSE LET r == AddMissing(c, s[1].c, s[1].v, s[1].n) IN IF r.e # "" THEN [c |-> c, ok |-> FALSE] ELSE AddAll(r.c, SubSeq(s, 2, Len(s)))
\* modes the version of the association has
ModesOk(v, s) == \A i \in DOMAIN s : (\A j \in DOMAIN s[i].as : s[i].as[j][2] \in (IF v = 0 THEN 0..3 ELSE 0..6))
                                     /\ \A j \in DOMAIN s[i].ms : s[i].ms[j][2] \in (IF v = 0 THEN 0..1 ELSE 0..2)
\* objects come with the first list
SetList(q, e, s) ==
  LET x == Ass(q, e) v == At(q.c, AssName(e)).v IN
  IF ~ModesOk(v, s) THEN [q |-> q, ok |-> FALSE, end |-> FALSE]
  ELSE LET r == IF x.has THEN [c |-> q.c, ok |-> TRUE] ELSE AddAll(q.c, s)
       IN [q |-> Update(Come([q EXCEPT !.c = r.c]), [x EXCEPT !.has = TRUE, !.list = s]), ok |-> r.ok, end |-> ~r.ok]

\* authentication demanded by the policy
Authentic(p) == IF p[1] = 0 THEN p[2] \in {1, 3} ELSE (p[2] \div 4) % 2 = 1 \/ (p[2] \div 32) % 2 = 1
Reads(m, p) == m \in {1, 3} \/ (m \in {4, 6} /\ Authentic(p))
Writes(m, p) == m \in {2, 3} \/ (m \in {5, 6} /\ Authentic(p))
\* whatever the policy
MayRead(m) == m \in {1, 3, 4, 6}
MayWrite(m) == m \in {2, 3, 5, 6}
\* given: mechanism asked for, -1 that of the association
Executes(m, given, own) == m = 1 \/ (m = 2 /\ (IF given >= 0 THEN given ELSE own) >= 1)

\* the first element of a name, the first mode of an index
Element(s, n) == SelectSeq(s, LAMBDA x : x.n = n)
Mode(s, i) == SelectSeq(s, LAMBDA x : x[1] = i)
No == [e |-> "NoObject", r |-> 0]
Wrong == [e |-> "ValueError", r |-> 0]
Empty == [e |-> "ITEApplication", r |-> 0]
Got(r) == [e |-> "", r |-> r]
Bit(b) == IF b THEN 1 ELSE 0
\* mode of an attribute ("as") or method ("ms") in the list of an association
Find(q, e, n, f, i) ==
  IF ~HasAss(q, e) THEN No
  ELSE LET x == Ass(q, e) IN
       IF ~x.has THEN Empty
       ELSE LET el == Element(x.list, n) IN
            IF el = <<>> THEN No
            ELSE LET m == Mode(el[1][f], i) IN IF m = <<>> THEN Wrong ELSE Got(m[1][2])
Then(g, b) == IF g.e # "" THEN g ELSE Got(Bit(b))
ReadAnswer(g, p) == Then(g, Reads(g.r, p))
WriteAnswer(g, p) == Then(g, Writes(g.r, p))
Readable(q, e, n, i, p) == ReadAnswer(Find(q, e, n, "as", i), p)
Writable(q, e, n, i, p) == WriteAnswer(Find(q, e, n, "as", i), p)
Accessible(q, e, n, i, given) == LET g == Find(q, e, n, "ms", i) IN Then(g, Executes(g.r, given, Ass(q, e).mech))
\* all attributes of a set writable; which error is met first depends on the order of the set
AllWritable(s, n, idx) ==
  LET el == Element(s, n) IN
  IF el = <<>> THEN {No}
  ELSE LET one(i) == LET m == Mode(el[1].as, i) IN IF m = <<>> THEN Wrong ELSE Got(Bit(MayWrite(m[1][2])))
           all == {one(i) : i \in idx}
       IN IF all \subseteq {Got(1)} THEN {Got(1)} ELSE all \ {Got(1)}
\* <<name, index>> writable in some association
WritableAll(q) == LET A == Associations(q)
                      of(x) == {<<x.n, x.as[i][1]>> : i \in {i \in DOMAIN x.as : MayWrite(x.as[i][2])}}
                  IN UNION {UNION {of(A[k].x.list[j]) : j \in DOMAIN A[k].x.list} : k \in DOMAIN A}
Objects(q, x) == IF ~x.has THEN [e |-> "EmptyObj", r |-> <<>>]
                 ELSE IF \E i \in DOMAIN x.list : ~Has(q.c, x.list[i].n) THEN [e |-> "NoObject", r |-> <<>>]
                 ELSE [e |-> "", r |-> [i \in DOMAIN x.list |-> IdOf(q.c, x.list[i].n)]]
ObjectsOf(q, e) == IF ~HasAss(q, e) THEN [e |-> "NoObject", r |-> <<>>] ELSE Objects(q, Ass(q, e))
\* by the client's address: the first association that has it
BySap(q, s) == SelectSeq(Associations(q), LAMBDA a : a.x.sap = s)
=============================================================================

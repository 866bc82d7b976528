------------------------------ MODULE MC_Access -----------------------------
(* Histories of associations and their lists; at every state all questions   *)
(* about all names and indexes, and the laws the answers must keep.          *)
EXTENDS Access, TLC, Json
CONSTANTS MaxOps, Es, Lists, Saps
VARIABLES q, hist
vars == <<q, hist>>

Clock == <<0, 0, 1, 0, 0, 255>>
Energy == <<1, 0, 1, 8, 0, 255>>
El(n, c, as, ms) == [n |-> n, c |-> c, v |-> 0, as |-> as, ms |-> ms]
Plain == El(Clock, 8, <<<<1, 1>>, <<2, 3>>, <<3, 2>>, <<4, 0>>>>, <<<<1, 1>>, <<2, 0>>>>)
Auth == El(Clock, 8, <<<<1, 4>>, <<2, 6>>, <<3, 5>>>>, <<<<1, 2>>>>)
Twice == El(Energy, 3, <<<<1, 1>>, <<2, 2>>, <<2, 0>>>>, <<>>)
AssEl == [n |-> AssName(2), c |-> 15, v |-> 1, as |-> <<<<1, 1>>>>, ms |-> <<>>]
Bad0 == El(Energy, 8, <<>>, <<>>)
SomeLists == {<<>>, <<Plain>>, <<Auth, Twice>>, <<Plain, Auth>>, <<Twice, AssEl>>, <<Plain, Bad0>>}
FewLists == {<<>>, <<Auth, Twice>>, <<Plain, Auth>>, <<Twice, AssEl>>}

Init == q = NoAcc /\ hist = <<>>
Do(o, d) == hist' = Append(hist, o) /\ q' = d
Make == \E e \in Es, v \in {0, 1} : ~Has(q.c, AssName(e)) /\ Do([ev |-> "assoc", e |-> e, v |-> v], AddAss(q, e, v))
Give == \E e \in Es, s \in Lists : HasAss(q, e) /\ ~SetList(q, e, s).end /\ Do([ev |-> "list", e |-> e, list |-> s], SetList(q, e, s).q)
Away == \E n \in {Clock, Energy} : Has(q.c, n) /\ Do([ev |-> "rm", n |-> n], [q EXCEPT !.c = Remove(@, n)])
Addr == \E e \in Es, s \in Saps : HasAss(q, e) /\ Do([ev |-> "sap", e |-> e, s |-> s], Update(q, [Ass(q, e) EXCEPT !.sap = s]))
Mech == \E e \in Es, m \in 0..1 : HasAss(q, e) /\ Do([ev |-> "mech", e |-> e, m |-> m], Update(q, [Ass(q, e) EXCEPT !.mech = m]))
Next == Len(hist) < MaxOps /\ (Make \/ Give \/ Away \/ Addr \/ Mech)
Spec == Init /\ [][Next]_vars
Seen == <<q, Len(hist)>>

Policies == {<<0, p>> : p \in 0..3} \cup {<<1, f>> : f \in {0, 1, 4, 8, 32, 64, 36, 128, 255}}
Weak == <<0, 0>>
Strong == <<0, 3>>
Queries == {<<e, n, i>> : e \in Es, n \in {Clock, Energy}, i \in 1..4}
\* a policy lies between none and both, only authentication counts
Monotone == \A g \in {Find(q, x[1], x[2], "as", x[3]) : x \in Queries} : \A p \in Policies :
              LET rd(y) == ReadAnswer(g, y) wr(y) == WriteAnswer(g, y)
              IN /\ rd(p) \in {rd(Weak), rd(Strong)} /\ wr(p) \in {wr(Weak), wr(Strong)}
                 /\ rd(Weak).r <= rd(p).r /\ wr(Weak).r <= wr(p).r
                 /\ rd(p).e = wr(p).e
\* with authentication the right is what the mode permits at most
AtMost == \A g \in {Find(q, x[1], x[2], "as", x[3]) : x \in Queries} :
            g.e = "" => (ReadAnswer(g, Strong).r = Bit(MayRead(g.r)) /\ WriteAnswer(g, Strong).r = Bit(MayWrite(g.r)))
\* what is shown as writable is writable for some association under the strongest policy, and the other way round
Agree == LET w == WritableAll(q) IN
         /\ \A x \in Queries : x[1] # 0 /\ Writable(q, x[1], x[2], x[3], Strong).r = 1 => <<x[2], x[3]>> \in w
         /\ \A x \in Queries : HasAss(q, x[1]) /\ Ass(q, x[1]).has /\ Element(Ass(q, x[1]).list, x[2]) # <<>>
              => (Got(1) \in AllWritable(Ass(q, x[1]).list, x[2], {x[3]})) = (Writable(q, x[1], x[2], x[3], Strong) = Got(1))
Methods == \A x \in Queries, m \in {-1, 0, 1, 5} : LET a == Accessible(q, x[1], x[2], x[3], m) g == Find(q, x[1], x[2], "ms", x[3])
                                                   IN a.e = g.e /\ (g.e = "" => (a.r = 1) = (g.r = 1 \/ (g.r = 2 /\ (m >= 1 \/ (m = -1 /\ Ass(q, x[1]).mech >= 1)))))
\* objects of a list set once are there until removed
There == \A e \in Es : HasAss(q, e) /\ Ass(q, e).has => \A i \in DOMAIN Ass(q, e).list :
            Has(q.c, Ass(q, e).list[i].n) \/ (\E j \in DOMAIN hist : hist[j].ev = "rm") \/ Cardinality({j \in DOMAIN hist : hist[j].ev = "list" /\ hist[j].e = e}) > 1
ByAddress == \A s \in Saps : LET b == BySap(q, s) IN b # <<>> => b[1].e # 0 /\ b[1].x.sap = s
Records == \A i \in DOMAIN q.c.objs : q.c.objs[i].c = 15 => \E x \in q.as : x.id = q.c.objs[i].id
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([hist |-> hist])>>) ELSE TRUE
=============================================================================

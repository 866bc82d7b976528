---------------------------- MODULE MC_Collection ---------------------------
(* All short histories of additions and removals.  What the collection shows *)
(* is checked against the journal of what was done: the object under a name  *)
(* is the last one put there, names stand in the order they came.            *)
EXTENDS Collection, TLC, Json
CONSTANTS MaxOps, Names, Kinds0
VARIABLES c, hist, done
vars == <<c, hist, done>>

AllNames == {LDN, <<0, 0, 40, 0, 1, 255>>, <<0, 0, 40, 0, 2, 255>>, <<1, 0, 41, 7, 0, 255>>, <<1, 0, 1, 8, 0, 255>>}
FewNames == {LDN, <<0, 0, 40, 0, 1, 255>>, <<0, 0, 40, 0, 2, 255>>, <<1, 0, 41, 7, 0, 255>>}
AllKinds == {<<1, 0>>, <<15, 0>>, <<15, 2>>, <<15, -1>>, <<3, 0>>, <<3, -1>>}
FewKinds == {<<1, 0>>, <<15, 0>>, <<15, 2>>, <<15, -1>>, <<3, -1>>, <<3, 0>>}

Init == c = New /\ hist = <<>> /\ done = <<[op |-> "add", n |-> LDN, id |-> 1]>>
Write(o, d, r) == hist' = Append(hist, o) /\ c' = r /\ done' = (IF r = c THEN done ELSE Append(done, d))
AddOne == \E n \in Names, k \in Kinds0 :
            LET r == Add(c, k[1], k[2], n) IN Write([ev |-> "add", n |-> n, k |-> k[1], v |-> k[2]], [op |-> "add", n |-> n, id |-> r.id], r.c)
AddNew == \E n \in Names, k \in Kinds0 :
            LET r == AddMissing(c, k[1], k[2], n) IN Write([ev |-> "addm", n |-> n, k |-> k[1], v |-> k[2]], [op |-> "add", n |-> n, id |-> r.id], r.c)
Drop1 == \E n \in Names : Write([ev |-> "rm", n |-> n, k |-> 0, v |-> 0], [op |-> "rm", n |-> n, id |-> 0], Remove(c, n))
Next == Len(hist) < MaxOps /\ (AddOne \/ AddNew \/ Drop1)
Spec == Init /\ [][Next]_vars

Seen == <<c, done, Len(hist)>>
\* journal
Lasts(n) == {i \in DOMAIN done : done[i].n = n}
LastOf(n) == CHOOSE i \in Lasts(n) : \A j \in Lasts(n) : j <= i
Present == {n \in Names : Lasts(n) # {} /\ done[LastOf(n)].op = "add"}
\* when it came: the first addition since it was last absent
Came(n) == CHOOSE i \in Lasts(n) : done[i].op = "add" /\ \A j \in Lasts(n) : (j > i => done[j].op = "add") /\ (j < i => \E k \in Lasts(n) : k >= j /\ k < i /\ done[k].op = "rm")
Journal == /\ {c.objs[i].n : i \in DOMAIN c.objs} = Present
           /\ \A i \in DOMAIN c.objs : c.objs[i].id = done[LastOf(c.objs[i].n)].id
           /\ \A i, j \in DOMAIN c.objs : i < j => Came(c.objs[i].n) < Came(c.objs[j].n)
OneEach == \A i, j \in DOMAIN c.objs : (c.objs[i].n = c.objs[j].n \/ c.objs[i].id = c.objs[j].id) => i = j
DeviceName == Has(c, LDN)
Allowed == \A i \in DOMAIN c.objs : <<c.objs[i].c, c.objs[i].v>> \in Accepted(c.spec, c.objs[i].n)
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([hist |-> hist])>>) ELSE TRUE
=============================================================================

------------------------------ MODULE MC_Cells -----------------------------
(* A unique array, a plain array and a structure, changed by every operation *)
(* with good and bad arguments.  Checked: a refusal changes nothing, a       *)
(* unique array never holds equal elements, element types never change, and  *)
(* what the container encodes is read back as its elements.                  *)
EXTENDS Cells, Json

CONSTANTS MaxLen, MaxOps, Vals
VARIABLES c, last, hist
vars == <<c, last, hist>>

U(n) == <<17, n>>
Bad == {<<16, 0, 1>>, <<17>>, <<>>}
Unique == [kind |-> "array", et |-> 17, uniq |-> TRUE, els |-> <<>>, ts |-> <<>>]
Plain == [Unique EXCEPT !.uniq = FALSE]
Struct == [kind |-> "struct", et |-> 0, uniq |-> FALSE, ts |-> <<17, 9, 16>>, els |-> <<U(0), <<9, 0>>, <<16, 0, 0>>>>]

Init == c \in {Unique, Plain, Struct} /\ last = [e |-> "", before |-> c] /\ hist = <<>>
Apply(o) == /\ Len(hist) < MaxOps
            /\ LET r == IF c.kind = "array" THEN DoArray(c, o) ELSE DoStruct(c, o)
               IN c' = r.c /\ last' = [e |-> r.e, before |-> c]
            /\ hist' = Append(hist, o)
Arr == c.kind = "array"
Elem == {U(n) : n \in Vals}
Grow == Arr /\ Len(c.els) < MaxLen /\ (\/ \E v \in Elem \cup Bad : Apply([op |-> "append", v |-> v])
                                      \/ \E v \in Elem \cup {<<16, 0, 1>>}, i \in {-5, -1, 0, 1, 7} : Apply([op |-> "insert", v |-> v, i |-> i]))
Shrink == Arr /\ (\/ \E v \in Elem \cup {<<16, 0, 1>>} : Apply([op |-> "remove", v |-> v])
                  \/ \E i \in {-3, -1, 0, 1, 5} : Apply([op |-> "pop", has |-> TRUE, i |-> i])
                  \/ Apply([op |-> "pop", has |-> FALSE, i |-> 0])
                  \/ Apply([op |-> "clear"]) \/ Apply([op |-> "setnone"]))
Lists == {<<>>} \cup {<<x>> : x \in Elem \cup Bad} \cup {<<x, y>> : x, y \in Elem} \cup {<<x, <<16, 0, 1>>, y>> : x, y \in Elem}
SetArray == Arr /\ \E l \in Lists : Apply([op |-> "setlist", vs |-> l]) \/ Apply([op |-> "setoctets", s |-> EncOf(1, l)])
InPlace == Arr /\ \E i \in {-1, 0, 2}, v \in Elem \cup {<<16, 0, 1>>} : Apply([op |-> "setel", i |-> i, v |-> v])
Look == Arr /\ \E i \in {-2, 0, 1} : Apply([op |-> "get", i |-> i])
SLists == {<<U(a), <<9, 1, b>>, <<16, b, a>>>> : a \in Vals, b \in Vals} \cup {<<U(1), <<9, 2, 1, 1>>>>, <<U(1), <<9, 0>>, <<18, 0, 0>>>>, <<U(2), <<10, 0>>, <<16, 0, 0>>>>,
           <<U(1), <<9, 0>>, <<16, 0, 0>>, U(1)>>, <<U(2), <<9, 3, 1>>, <<16, 0, 0>>>>}
SetStruct == ~Arr /\ \E l \in SLists : Apply([op |-> "setlist", vs |-> l]) \/ Apply([op |-> "setoctets", s |-> EncOf(2, l)])
StructEl == ~Arr /\ (\/ \E i \in 0..2, v \in {U(1), <<9, 1, 5>>, <<16, 1, 1>>, <<17>>} : Apply([op |-> "setel", i |-> i, v |-> v])
                     \/ \E i \in 0..2, v \in {U(1), <<9, 1, 5>>, <<16, 1, 1>>} : Apply([op |-> "putel", i |-> i, v |-> v])
                     \/ \E i \in 0..3 : Apply([op |-> "get", i |-> i]))
Next == Grow \/ Shrink \/ SetArray \/ InPlace \/ Look \/ SetStruct \/ StructEl
Spec == Init /\ [][Next]_vars
View == <<c, last>>

RefusedIsNoop == last.e # "" => c = last.before
TypesKept == /\ c.et = last.before.et /\ c.ts = last.before.ts /\ c.uniq = last.before.uniq
             /\ Arr => \A i \in 1..Len(c.els) : c.els[i][1] = c.et
             /\ ~Arr => Len(c.els) = Len(c.ts) /\ \A i \in 1..Len(c.ts) : c.els[i][1] = c.ts[i]
ReadBack == LET p == Parts(IF Arr THEN 1 ELSE 2, EncOf(IF Arr THEN 1 ELSE 2, c.els)) IN p.ok /\ p.els = c.els
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([kind |-> c.kind, uniq |-> c.uniq, hist |-> hist])>>) ELSE TRUE
\* in-place change of an element can repeat another one: the caller's affair; every other operation keeps them distinct
StaysUnique == (c.uniq /\ hist # <<>> /\ hist[Len(hist)].op # "setel" /\ Distinct(last.before.els)) => Distinct(c.els)
=============================================================================

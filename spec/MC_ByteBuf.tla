------------------------------- MODULE MC_ByteBuf --------------------------
(* All histories of buffer operations up to a bound.  Checked: positions and *)
(* windows stay inside their stores; a refused operation changes nothing; a  *)
(* write-protected store never changes; an operation touches one store at    *)
(* most, and there only the octets it was given room for.                    *)
EXTENDS ByteBuf, Json

CONSTANTS MaxStores, MaxBufs, MaxViews, Size, MaxOps, Values

VARIABLES h, last, hist
vars == <<h, last, hist>>

Init == h = EmptyHeap /\ last = [op |-> [op |-> "none"], before |-> EmptyHeap, e |-> ""] /\ hist = <<>>

Apply(o) ==
  LET r == Do(h, o)
  IN /\ Len(hist) < MaxOps
     /\ h' = r.h
     /\ last' = [op |-> o, before |-> h, e |-> r.e]
     /\ hist' = Append(hist, o)

Bufs == 1..Len(h.bufs)
Create == /\ Len(h.stores) < MaxStores /\ Len(h.bufs) < MaxBufs
          /\ \/ \E n \in 0..Size : Apply([op |-> "allocate", n |-> n])
             \/ \E ro \in BOOLEAN : Apply([op |-> "wrap", v |-> [i \in 1..Size |-> i], ro |-> ro])
             \/ \E b \in Bufs : Apply([op |-> "frozen", b |-> b])
Slice_ == /\ Len(h.bufs) < MaxBufs /\ \E b \in Bufs : Apply([op |-> "slice", b |-> b])
Read == /\ Len(h.views) < MaxViews
        /\ \E b \in Bufs, n \in 0..Size + 1 :
             \/ Apply([op |-> "read", b |-> b, n |-> n])
             \/ \E at \in 0..Size : Apply([op |-> "readpos", b |-> b, at |-> at, n |-> n])
Number == \E b \in Bufs : \/ Apply([op |-> "getuint8", b |-> b])
                          \/ Apply([op |-> "get", b |-> b])
                          \/ \E n \in 0..Size + 1 : Apply([op |-> "getuint", b |-> b, n |-> n])
                          \/ \E n \in 0..Size, at \in 0..Size : Apply([op |-> "getuintpos", b |-> b, n |-> n, at |-> at])
Write == \E b \in Bufs, v \in Values :
           \/ Apply([op |-> "write", b |-> b, v |-> v])
           \/ \E at \in 0..Size : Apply([op |-> "writepos", b |-> b, v |-> v, at |-> at])
Put == \E b \in Bufs : (\E n \in {0, 7, 255, 256} : Apply([op |-> "putint", b |-> b, n |-> n])) \/ (\E n \in {3, 128, 300} : Apply([op |-> "putlen", b |-> b, n |-> n]))
Move == \E b \in Bufs, at \in -1..Size + 1 : Apply([op |-> "setpos", b |-> b, at |-> at])
Next == Create \/ Slice_ \/ Read \/ Number \/ Write \/ Put \/ Move
Spec == Init /\ [][Next]_vars

Vals1 == {<<>>, <<9>>, <<8, 7>>}
Vals2 == {<<>>, <<9>>, <<8, 7>>, <<1, 2, 3, 4>>}
View == <<h, last>>
Inside == HeapOk(h)
RefusedIsNoop == last.e # "" => h = last.before
ProtectedNeverChanges ==
  \A i \in 1..Len(last.before.stores) : last.before.stores[i].ro => h.stores[i] = last.before.stores[i]
OthersUntouched ==
  last.op.op \in {"write", "writepos", "putint", "putlen"} =>
     LET b == last.before.bufs[last.op.b]
     IN \A i \in 1..Len(last.before.stores) :
          /\ i # b.s => h.stores[i] = last.before.stores[i]
          /\ Len(h.stores[i].d) = Len(last.before.stores[i].d)
          /\ i = b.s => \A k \in 1..Len(h.stores[i].d) : h.stores[i].d[k] # last.before.stores[i].d[k] => k - 1 \in b.base..(b.base + b.len - 1)
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([hist |-> hist])>>) ELSE TRUE
=============================================================================

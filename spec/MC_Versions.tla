---------------------------- MODULE MC_Versions ----------------------------
(* Every version text is built letter by letter; the laws of the order are   *)
(* checked over all triples of small versions, the choice of the nearest     *)
(* over all short lists.                                                     *)
EXTENDS Versions
CONSTANTS Alphabet, MaxText, Numbers, Patches, MaxList
VARIABLES s, q, ws
vars == <<s, q, ws>>
None == Ver(0, 0, 0, <<>>)
Small == {Ver(a, b, p - 1, <<>>) : a \in Numbers, b \in Numbers, p \in Patches}       \* patch 0 of the constants: none
Init == s = <<>> /\ q \in Small /\ ws = <<>>
Write(x) == Len(s) < MaxText /\ ws = <<>> /\ q = (CHOOSE v \in Small : TRUE) /\ s' = Append(s, x) /\ UNCHANGED <<q, ws>>
Offer(v) == Len(ws) < MaxList /\ s = <<>> /\ ws' = Append(ws, v) /\ UNCHANGED <<s, q>>
Next == (\E x \in Alphabet : Write(x)) \/ (\E v \in Small : Offer(v))
Spec == Init /\ [][Next]_vars
\* reading is total, what is shown is read again
TextRoundTrip == LET v == Parse(s) IN Parse(Text(v)) = [v EXCEPT !.t = <<>>]
\* an unreadable text is no later than any version
Floor == LET v == Parse(s) IN v \in {Nothing2, Nothing3} => \A w \in Small : NotEarlier(w, v)
Known(v) == v.p # NoPatch
OrderLaws == (s = <<>> /\ ws = <<>>) => \A v \in Small :
  /\ ~Later(v, v) /\ NotEarlier(v, v)
  /\ (\A w \in Small : /\ (Later(v, w) => ~Later(w, v) /\ ~NotEarlier(w, v))
                       /\ (Later(v, w) \/ NotEarlier(w, v))
                       /\ (Known(v) /\ Known(w) => (Later(v, w) \/ Later(w, v) \/ v = w))
                       /\ (Later(q, v) /\ Later(v, w) => Later(q, w))
                       /\ (Known(q) /\ Known(v) /\ Known(w) /\ NotEarlier(q, v) /\ NotEarlier(v, w) => NotEarlier(q, w)))
\* something is chosen exactly if something fits, and of known patches it is the only one
NearestExists == \E k \in 0..Len(ws) : NearestOk(q, ws, k)
NearestUnique == (\A i \in DOMAIN ws : Known(ws[i])) => \A k, m \in 0..Len(ws) : NearestOk(q, ws, k) /\ NearestOk(q, ws, m) => (IF k = 0 \/ m = 0 THEN k = m ELSE ws[k] = ws[m])
=============================================================================

----------------------------- MODULE MC_Linked ------------------------------
(* A register of either kind whose values and scaler are written in any      *)
(* order and whose limits are watched: what is read, and the same register   *)
(* written in another order.                                                 *)
EXTENDS Linked, Json, TLC, FiniteSets
CONSTANTS Steps, Deep
VARIABLES q, m, hist
vars == <<q, m, hist>>
view == <<q, m, Len(hist)>>

Us == [u \in 1..255 |-> IF u \in 27..32 THEN 3 ELSE 0]
Kinds == IF Deep THEN {1, 3, 4, 5} ELSE {3, 5}
Numbers == {<<17, 0>>, <<17, 200>>, <<15, 246>>, <<18, 3, 232>>} \cup (IF Deep THEN {<<6, 0, 1, 226, 64>>, <<5, 255, 255, 255, 133>>, <<16, 0, 90>>} ELSE {})
Others == {<<9, 1, 65>>, <<1, 0>>}
Powers == {-2, 0, 1} \cup (IF Deep THEN {3, 4} ELSE {})
UnitsUsed == {27, 35}
Words == {<<48>>, <<49, 46, 53>>, <<45, 50, 48>>, <<48, 46, 50>>}
Init == \E k \in Kinds : q = Register(k, Us) /\ m = NoLimits /\ hist = <<[ev |-> "new", k |-> k]>>
Log(x) == hist' = Append(hist, x)
Put2 == \E a \in DOMAIN q.vs : \E s \in Numbers \cup Others : q' = ValueSet(q, a, s).q /\ m' = m /\ Log([ev |-> "value", a |-> a, s |-> s])
ScaleIt == q.k # 1 /\ (q.su # <<>> \/ m.k = 0) /\ \E e \in Powers : \E u \in UnitsUsed : q' = ScalerSet(q, e, u) /\ m' = m /\ Log([ev |-> "scaler", p |-> e, u |-> u])
Texts == {Scaled(Load(Plain(s[1]), Tail(s)), e) : s \in Numbers, e \in {-2, 0}} \cup Words
Exact(s, t, e) == IsNumber(s) /\ ParseScaled(t, e).ok
WriteIt == \E a \in DOMAIN q.vs : \E t \in Texts : Exact(q.vs[a], t, Power(q)) /\ q' = TextSet(q, a, t).q /\ m' = m /\ Log([ev |-> "text", a |-> a, t |-> t])
WatchIt == q.k # 5 /\ m.k = 0 /\ IsNumber(q.vs[1]) /\ m' = Watch(m, q, q.k) /\ q' = q /\ Log([ev |-> "watch"])
LimitIt == m.k # 0 /\ \E i \in 1..3 : \/ \E s \in Numbers : m' = LimitSet(m, i, s).q /\ q' = q /\ Log([ev |-> "limit", i |-> i, s |-> s])
                                      \/ \E t \in Texts : Exact(m.ts[i], t, LimitPower(m, q)) /\ m' = LimitText(m, q, i, t).q /\ q' = q /\ Log([ev |-> "limittext", i |-> i, t |-> t])
Next == Len(hist) <= Steps /\ (Put2 \/ ScaleIt \/ WriteIt \/ WatchIt \/ LimitIt)
Spec == Init /\ [][Next]_vars

\* what is read, written back, is what was there; whatever the scaler is
ReadBack == \A a \in DOMAIN q.vs : IsNumber(q.vs[a]) => TextSet(q, a, ReadOf(q, a)) = Yes(q)
\* a new scaler changes the reading, never the number
OnlyReading == \A e \in Powers : ScalerSet(q, e, 27).vs = q.vs
\* the value and the scaler may come in any order
AnyOrder == \A a \in DOMAIN q.vs : \A s \in Numbers \cup Others : \A e \in Powers :
              ScalerSet(ValueSet(q, a, s).q, e, 27) = ValueSet(ScalerSet(q, e, 27), a, s).q
OneType == q.k = 5 => \/ \E a \in 1..2 : q.vs[a] = <<>>
                      \/ q.vs[1][1] = q.vs[2][1]
\* a limit written as the value is read is that value, when both are read in one unit
SameUnit == m.k \in {3, 4} /\ m.scaled /\ IsNumber(q.vs[1]) => \A i \in 1..3 : LimitText(m, q, i, ReadOf(q, 1)) = Yes([m EXCEPT !.ts[i] = q.vs[1]])
SameType == m.k # 0 => \A i \in 1..3 : m.ts[i][1] = q.vs[1][1]
Rows == {<<>>, <<<<1>>>>, <<<<1, 0>>, <<1>>>>}
ASSUME \A r \in Rows : \A n \in 0..3 : LET f == Fitted(r, n) IN DOMAIN f = DOMAIN r /\ (\A i \in DOMAIN f : Len(f[i]) = n) /\ Fitted(f, n) = f
Emit == IF Len(hist) > Steps THEN PrintT(<<"GEN", ToJson([ops |-> hist])>>) ELSE TRUE
=============================================================================

------------------------------- MODULE Linked -------------------------------
(* Attributes that follow one another.  A register's numbers are read and    *)
(* written in the unit and by the power of ten its scaler says; the limits   *)
(* of a limiter and of a register monitor take the type (and the limiter the *)
(* scaler) of the value they watch; the rows of an arbitrator's permissions  *)
(* have a place for every action; the secret of an association is of the     *)
(* kind its mechanism needs.                                                 *)
EXTENDS Num

ValueTags == {0, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24}
IsNumber(s) == s # <<>> /\ s[1] \in IntTags
ZeroOf(t) == <<t>> \o Zeros(WidthOf(t))

\* a register: k its class, vs the encodings of its values (<<>>: none), su: <<>> or power and unit; us: the powers units are shown by
Register(k, us) == [k |-> k, vs |-> IF k = 5 THEN <<<<>>, <<>>>> ELSE <<<<>>>>, su |-> <<>>, us |-> us]
Power(q) == IF q.su = <<>> THEN 0 ELSE q.su[1] - q.us[q.su[2]]
Read(s, e) == IF IsNumber(s) THEN Scaled(Load(Plain(s[1]), Tail(s)), e) ELSE <<>>
ReadOf(q, a) == Read(q.vs[a], Power(q))
SUEnc(q) == IF q.su = <<>> THEN <<>> ELSE <<2, 2, 15, q.su[1] % 256, 22, q.su[2]>>

No(q) == [ok |-> FALSE, q |-> q]
Yes(q) == [ok |-> TRUE, q |-> q]
\* the value of another type is refused; the two of a demand register are of one type
ValueSet(q, a, s) ==
  LET cur == q.vs[a]
      peer == IF q.k = 5 THEN q.vs[3 - a] ELSE <<>>
  IN IF IF cur = <<>> THEN (q.k = 1 \/ s[1] \in ValueTags) /\ (peer = <<>> \/ peer[1] = s[1]) ELSE s[1] = cur[1]
     THEN Yes([q EXCEPT !.vs[a] = s]) ELSE No(q)
ScalerSet(q, e, u) == [q EXCEPT !.su = <<e, u>>]
\* a number written as text: s the encoding that held the place
Written(s, t, e) == LET p == ParseScaled(t, e)
                    IN IF p.ok /\ InRange(Plain(s[1]), p.x) THEN [ok |-> TRUE, s |-> <<s[1]>> \o Store(Plain(s[1]), p.x)] ELSE [ok |-> FALSE, s |-> s]
TextSet(q, a, t) == LET w == Written(q.vs[a], t, Power(q)) IN IF w.ok THEN Yes([q EXCEPT !.vs[a] = w.s]) ELSE No(q)

\* a limiter: k the class of what it watches (0: nothing yet); scaled: its limits are in the unit of the register
NoLimits == [k |-> 0, scaled |-> FALSE, ts |-> <<<<>>, <<>>, <<>>>>]
LimitPower(m, q) == IF m.scaled THEN Power(q) ELSE 0
Watch(m, q, k) == IF IsNumber(q.vs[1]) THEN [k |-> k, scaled |-> q.su # <<>> /\ k \in {3, 4}, ts |-> [i \in 1..3 |-> ZeroOf(q.vs[1][1])]] ELSE m
LimitSet(m, i, s) == IF m.k # 0 /\ s[1] = m.ts[i][1] THEN Yes([m EXCEPT !.ts[i] = s]) ELSE No(m)
LimitText(m, q, i, t) == LET w == Written(m.ts[i], t, LimitPower(m, q)) IN IF w.ok THEN Yes([m EXCEPT !.ts[i] = w.s]) ELSE No(m)

\* a register monitor: the type of its thresholds and their encodings
NoMonitor == [t |-> -1, ts |-> <<>>]
MonitorOf(q) == [t |-> q.vs[1][1], ts |-> <<>>]
ThresholdsSet(m, ss) == IF \A i \in DOMAIN ss : ss[i][1] = m.t THEN Yes([m EXCEPT !.ts = ss]) ELSE No(m)

\* permissions: a row of bits for every actor, as wide as there are actions
Fitted(rows, n) == [i \in DOMAIN rows |-> IF Len(rows[i]) = n THEN rows[i] ELSE Zeros(n)]

\* the secret: none until the mechanism is known; the password is of any length, a key of 16 octets
NoSecret == [m |-> -1, key |-> FALSE, c |-> <<>>]
MechSet(x, m) == [m |-> m, key |-> m = 2, c |-> IF m = 2 THEN [i \in 1..16 |-> 48] ELSE <<>>]
SecretSet(x, c) == IF x.m = -1 THEN Yes(x) ELSE IF x.key /\ Len(c) # 16 THEN No(x) ELSE Yes([x EXCEPT !.c = c])
=============================================================================

-------------------------------- MODULE Keyed --------------------------------
(* Tables whose elements are told apart by a key: seasons, weeks and days of *)
(* an activity calendar (active and passive), special days, entries of a     *)
(* schedule.  o: c: class, t: per attribute the elements of its table.       *)
EXTENDS Schema

TabType(o, i) == Cls(o.c).attrs[i].t
Tables(c) == {i \in DOMAIN Cls(c).attrs : Cls(c).attrs[i].t.k = "array" /\ Cls(c).attrs[i].t.r # <<>>}
NewTables(c) == [c |-> c, t |-> [i \in DOMAIN Cls(c).attrs |-> <<>>]]
Elem(o, i) == TabType(o, i).sub[1]
Key(o, i, x) == KeyOf(TabType(o, i), x)
Used(o, i, x, but) == \E k \in DOMAIN o.t[i] : k # but /\ Key(o, i, o.t[i][k]) = Key(o, i, x)
Table(o, i) == Enc(Comp(1, o.t[i]))

\* what an element made without a value is: a vacant key, the first week or day there is
DayZero == <<7, 228, 1, 1, 255>>
MomentZero == DayZero \o <<0, 0, 0, 0, 0, 180, 255>>
Calendar(o) == Cls(o.c).key = "activity_calendar:ActivityCalendar"
DayTable(o) == Cls(o.c).key = "special_days_table:SpecialDaysTable"
Vacant(o, i, keys) == {k \in keys : ~\E j \in DOMAIN o.t[i] : o.t[i][j].v[1].c = k}
First(s) == CHOOSE k \in s : \A j \in s : UnsignedOf(k) <= UnsignedOf(j)
OneEach(S) == {<<n>> : n \in S}
NewElement(o, i) ==
  LET made(b, x) == [ok |-> b, x |-> x] none == made(FALSE, NoVal)
  IN CASE Calendar(o) /\ i \in {3, 7} ->
            LET v == Vacant(o, i, OneEach(0..255)) w == o.t[i + 1]
            IN IF v = {} \/ w = <<>> THEN none ELSE made(TRUE, Comp(2, <<Val(9, First(v)), Val(9, MomentZero), w[1].v[1]>>))
       [] Calendar(o) /\ i \in {4, 8} ->
            LET v == Vacant(o, i, OneEach(0..255)) d == o.t[i + 1]
            IN IF v = {} \/ d = <<>> THEN none ELSE made(TRUE, Comp(2, <<Val(9, First(v))>> \o [n \in 1..7 |-> d[1].v[1]]))
       [] Calendar(o) /\ i \in {5, 9} ->
            LET v == Vacant(o, i, OneEach(0..254)) IN IF v = {} THEN none ELSE made(TRUE, Comp(2, <<Val(17, First(v)), Comp(1, <<>>)>>))
       [] DayTable(o) ->
            LET v == Vacant(o, i, {BE(n, 2) : n \in 0..(Len(o.t[i]))}) IN made(TRUE, Comp(2, <<Val(18, First(v)), Val(9, <<7, 228, 1, 1, 3>>), Val(17, <<0>>)>>))
       [] OTHER -> made(TRUE, Comp(2, <<Val(18, <<0, 1>>), Val(3, <<0>>), Val(9, <<0, 0, 1, 0, 0, 255>>), Val(18, <<0, 0>>), Val(9, <<0, 0, 0, 0>>), Val(18, <<0, 0>>),
                                        Bits(0, <<>>), Bits(0, <<>>), Val(9, DayZero), Val(9, DayZero)>>))

\* p: op: what is done, i: attribute, k: position from 0, f: field, s: octets
Out(o, w) == [o |-> o, e |-> w]
Add(o, i, n, x) == IF ~Fits(Elem(o, i), x) \/ Used(o, i, x, 0) THEN Out(o, "bad")
                   ELSE Out([o EXCEPT !.t[i] = SubSeq(@, 1, n) \o <<x>> \o SubSeq(@, n + 1, Len(@))], "")
Place(k, n) == IF k < 0 THEN (IF n + k < 0 THEN 0 ELSE n + k) ELSE IF k > n THEN n ELSE k
\* keys of the special days stay distinct; names and numbers in a calendar may be rewritten freely, its validation tells
Change(o, i, k, x) == IF DayTable(o) /\ Used(o, i, x, k) THEN Out(o, "bad") ELSE Out([o EXCEPT !.t[i][k] = x], "")
Do(o, p) ==
  LET i == p.i tab == o.t[i] n == Len(tab) r == Read(p.s)
  IN CASE p.op = "append" -> IF r.ok THEN Add(o, i, n, r.val) ELSE Out(o, "bad")
       [] p.op = "new" -> LET x == NewElement(o, i) IN IF x.ok THEN Add(o, i, n, x.x) ELSE Out(o, "bad")
       [] p.op = "insert" -> IF r.ok THEN Add(o, i, Place(p.k, n), r.val) ELSE Out(o, "bad")
       [] p.op = "set" -> IF r.ok /\ Fits(TabType(o, i), r.val) THEN Out([o EXCEPT !.t[i] = r.val.v], "") ELSE Out(o, "bad")
       [] p.op = "remove" -> LET at == {k \in 1..n : tab[k] = r.val}
                             IN IF ~r.ok \/ at = {} THEN Out(o, "bad") ELSE LET k == CHOOSE a \in at : \A b \in at : a <= b IN Out([o EXCEPT !.t[i] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, n)], "")
       [] p.op = "pop" -> LET k == (IF p.k < 0 THEN n + p.k ELSE p.k) + 1
                          IN IF k \notin 1..n THEN Out(o, "index") ELSE Out([o EXCEPT !.t[i] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, n)], "")
       [] p.op = "clear" -> Out([o EXCEPT !.t[i] = <<>>], "")
       [] p.op = "field" -> IF p.k >= n THEN Out(o, "index") ELSE IF ~r.ok \/ ~Fits(Elem(o, i).sub[p.f], r.val) THEN Out(o, "bad") ELSE Change(o, i, p.k + 1, [tab[p.k + 1] EXCEPT !.v[p.f] = r.val])
       [] OTHER -> IF p.k >= n THEN Out(o, "index") ELSE IF ~r.ok \/ ~Fits(Elem(o, i), r.val) THEN Out(o, "bad") ELSE Change(o, i, p.k + 1, r.val)
=============================================================================

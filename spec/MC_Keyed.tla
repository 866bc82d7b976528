------------------------------- MODULE MC_Keyed ------------------------------
(* Histories of the tables of a calendar, a special-days table, a schedule.  *)
EXTENDS Keyed, Json
CONSTANTS Steps, Keys, Most
VARIABLES o, edited, hist
vars == <<o, edited, hist>>
view == <<o, edited, Len(hist)>>

ClassKeys == {"activity_calendar:ActivityCalendar", "special_days_table:SpecialDaysTable", "schedule:Schedule"}
Some(T, k) == CASE T.t = 17 -> Val(17, <<k>>)
                [] T.t = 18 -> Val(18, <<0, k + 1>>)
                [] T.k = "dt" -> Val(9, <<7, 232, 1 + k, 1, 255, 0, 0, 0, 0, 128, 0, 255>>)
                [] T.k = "d" -> Val(9, <<7, 232, 1 + k, 1, 255>>)
                [] T.k = "tm" -> Val(9, <<k, 0, 0, 0>>)
                [] T.k = "size" -> Val(9, <<0, 0, 10, 0, 100, 255>>)
                [] T.t = 9 -> Val(9, <<k>>)
                [] T.t = 3 -> Val(3, <<k % 2>>)
                [] T.t = 4 -> Bits(k, IF k = 0 THEN <<>> ELSE <<128>>)
                [] OTHER -> Comp(1, <<>>)
Make(T, a, b) == Comp(2, [f \in DOMAIN T.sub |-> Some(T.sub[f], IF f = 1 THEN a ELSE b)])
Watch == IF Calendar(o) THEN {3, 4, 5} ELSE {2}
Elems(i) == {Make(Elem(o, i), a, b) : a \in Keys, b \in {0, 1}}
P(op, i, k, f, s) == [op |-> op, i |-> i, k |-> k, f |-> f, s |-> s]
Ops(i) == {P("append", i, 0, 0, Enc(x)) : x \in Elems(i)} \cup {P("new", i, 0, 0, <<>>)} \cup {P("insert", i, k, 0, Enc(x)) : k \in {-1, 0, 1}, x \in Elems(i)}
          \cup {P("set", i, 0, 0, Enc(Comp(1, <<Make(Elem(o, i), a, 0), Make(Elem(o, i), b, 1)>>))) : a \in Keys, b \in Keys}
          \cup {P("remove", i, 0, 0, Enc(x)) : x \in Elems(i)} \cup {P("pop", i, k, 0, <<>>) : k \in {-1, 0, 1}} \cup {P("clear", i, 0, 0, <<>>)}
          \cup {P("field", i, k, 1, Enc(Some(Elem(o, i).sub[1], a))) : k \in 0..(Len(o.t[i]) - 1), a \in Keys}
          \cup {P("element", i, k, 0, Enc(x)) : k \in 0..(Len(o.t[i]) - 1), x \in Elems(i)}
Init == /\ \E k \in ClassKeys : o = NewTables(ClassNo(k))
        /\ edited = FALSE /\ hist = <<>>
Next == /\ Len(hist) < Steps
        /\ \E i \in Watch : \E p \in Ops(i) :
             LET r == Do(o, p)
             IN /\ Len(r.o.t[i]) <= Most /\ o' = r.o /\ hist' = Append(hist, p)
                /\ edited' = (edited \/ (p.op \in {"field", "element"} /\ r.e = "" /\ ~DayTable(o)))
Spec == Init /\ [][Next]_vars

KeysDistinct == ~edited => \A i \in Tables(o.c) : Distinct(TabType(o, i), Comp(1, o.t[i]))
ElementsFit == \A i \in Tables(o.c) : \A k \in DOMAIN o.t[i] : Fits(Elem(o, i), o.t[i][k])
\* a new element is of its type, with a vacant key
NewIsVacant == \A i \in Watch : LET x == NewElement(o, i) IN x.ok => Fits(Elem(o, i), x.x) /\ (Calendar(o) \/ DayTable(o) => ~Used(o, i, x.x, 0))
\* only the table worked on changes
OthersStay == [][\A i \in DOMAIN o.t : hist' # hist /\ i # hist'[Len(hist')].i => o'.t[i] = o.t[i]]_vars
\* a table with distinct keys can be set to what it is
Stable == \A i \in Tables(o.c) : Distinct(TabType(o, i), Comp(1, o.t[i])) => Do(o, P("set", i, 0, 0, Table(o, i))) = Out(o, "")
Emit == Len(hist) = Steps => PrintT(<<"GEN", ToJson([key |-> Cls(o.c).key, ops |-> hist])>>)
ASSUME PrintT(<<"GEN", ToJson([key |-> "", schema |-> [k \in ClassKeys |-> [i \in DOMAIN Cls(ClassNo(k)).attrs |->
            [keyed |-> Cls(ClassNo(k)).attrs[i].t.k = "array" /\ Cls(ClassNo(k)).attrs[i].t.r # <<>>, t |-> Cls(ClassNo(k)).attrs[i].t]]]])>>)
=============================================================================

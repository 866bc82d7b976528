---------------------------- MODULE MC_Calendar ----------------------------
(* Walks the calendar day by day from several starting days.  seen[i] is the *)
(* last day on the walk that pattern i matched - known by walking, not by    *)
(* calculation - and must be what LastMatchingDay calculates; days are       *)
(* numbered one by one and weekdays go round.                                *)
EXTENDS Dates
CONSTANTS Starts, Steps, Patterns, TinyTop
VARIABLES day, n, seen
vars == <<day, n, seen>>
P(i) == Patterns[i]
Note(s, d) == [i \in 1..Len(Patterns) |-> IF MatchesDay(P(i), d[1], d[2], d[3]) THEN d ELSE s[i]]
Init == \E d \in Starts : day = d /\ n = 0 /\ seen = Note([i \in 1..Len(Patterns) |-> <<>>], d)
Walk == n < Steps /\ n' = n + 1 /\ day' = Tomorrow(day[1], day[2], day[3]) /\ seen' = Note(seen, day')
Next == Walk
Spec == Init /\ [][Next]_vars
No(d) == DayNo(d[1], d[2], d[3])
Counted == [][No(day') = No(day) + 1 /\ WeekdayOf(day'[1], day'[2], day'[3]) = (WeekdayOf(day[1], day[2], day[3]) % 7) + 1
              /\ Yesterday(day'[1], day'[2], day'[3]) = day]_vars
Real == RealDate(day[1], day[2], day[3])
Latest == \A i \in 1..Len(Patterns) :
            LET r == LastMatchingDay(P(i), day[1], day[2], day[3])
            IN IF seen[i] # <<>> THEN r = seen[i] ELSE r = <<>> \/ No(r) < No(day) - n
\* the greatest matching time of day against all of a tiny day
Tiny == {255} \cup 0..TinyTop
TinyTimes == [1..4 -> 0..TinyTop]
ASSUME LeastRight == \A pat \in [1..4 -> Tiny], t \in TinyTimes :
         LET r == LastLe(pat, [i \in 1..4 |-> TinyTop], t)
             fits == {x \in TinyTimes : (\A i \in 1..4 : pat[i] \in {255, x[i]}) /\ LeT(x, t)}
         IN IF fits = {} THEN ~r.ok ELSE r.ok /\ r.t \in fits /\ \A x \in fits : LeT(x, r.t)
\* zones: going there and back
ASSUME ZonesBack == \A p \in { <<2024, 2, 29, 0, 0, 7, 8>>, <<2023, 12, 31, 23, 59, 0, 0>>, <<2024, 1, 1, 11, 30, 0, 0>> }, f \in {-720, -90, 0, 61, 720}, t \in {-720, -90, 0, 61, 720} :
         Shifted(Shifted(p, f, t), t, f) = p
QuickStarts == { <<1, 1, 1>>, <<1896, 12, 30>>, <<1999, 12, 1>>, <<2099, 6, 1>>, <<9996, 1, 1>> }
LongStarts == { <<1600, 1, 1>>, <<1690, 1, 1>>, <<1780, 1, 1>>, <<1870, 1, 1>>, <<1960, 1, 1>>, <<2050, 1, 1>>, <<1, 1, 1>>, <<9900, 1, 1>> }
SomePatterns == << <<255, 255, 255, 255, 255>>, <<255, 255, 2, 29, 255>>, <<255, 255, 255, 31, 255>>, <<255, 255, 255, 255, 3>>, <<255, 255, 255, 13, 5>>,
                   <<255, 255, 2, 29, 1>>, <<7, 208, 255, 255, 255>>, <<7, 208, 2, 255, 7>>, <<255, 255, 4, 30, 255>>, <<255, 255, 12, 31, 255>>, <<7, 207, 12, 31, 5>> >>
=============================================================================

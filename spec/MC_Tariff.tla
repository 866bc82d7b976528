------------------------------ MODULE MC_Tariff -----------------------------
(* A meter switching tariffs as time goes by: at each instant the season     *)
(* that starts becomes the active one, each day its day profile is taken,    *)
(* each action starts at its time.  What the client looks up from the        *)
(* calendar and the clock alone is what the meter has active.                *)
EXTENDS Tariff, TLC, Json
CONSTANTS Steps, Step, Starts, Pick
VARIABLES cal, now, season, day, act, left
vars == <<cal, now, season, day, act, left>>

S(nm, s, w) == [n |-> <<nm>>, s |-> s, w |-> <<w>>]
FF == 255
Winter == S(1, <<FF, FF, 1, 1, FF, 0, 0, 0, 0, 128, 0, FF>>, 1)
Summer == S(2, <<FF, FF, 3, 1, FF, 6, 0, 0, 0, 0, 180, FF>>, 2)
Monday == S(3, <<FF, FF, FF, FF, 1, 12, 0, 0, 0, 255, 76, FF>>, 1)       \* deviation -180
Once == S(4, <<7, 232, 2, 29, 4, 3, 0, 0, 0, 128, 0, FF>>, 2)             \* 29 February 2024
Hourly == S(5, <<FF, FF, 12, FF, FF, 21, 0, 0, 0, 128, 0, FF>>, 1)        \* every day of December at nine in the evening
SeasonSets == << <<Winter, Summer>>, <<Monday, Once>>, <<Once, Hourly>>, <<Summer>>, <<Hourly, Monday, Winter>> >>
A(h, sel) == [t |-> <<h, 0, 0, 0>>, sel |-> sel]
DaySets == << << [id |-> 1, acts |-> <<A(0, 1), A(9, 2), A(21, 3)>>], [id |-> 2, acts |-> <<A(18, 2), A(6, 1)>>], [id |-> 3, acts |-> <<A(FF, 4)>>] >>,
              << [id |-> 1, acts |-> <<>>], [id |-> 2, acts |-> <<A(0, 1)>>] >> >>
Weeks == << [n |-> <<1>>, d |-> <<1, 1, 1, 1, 1, 2, 3>>], [n |-> <<2>>, d |-> <<2, 2, 1, 2, 2, 2, 2>>] >>
SpecSets == << <<>>, << [d |-> <<FF, FF, 1, 1, FF>>, id |-> 2], [d |-> <<FF, FF, FF, 254, FF>>, id |-> 1], [d |-> <<7, 232, 3, 253, 6>>, id |-> 3] >> >>

QuickStarts == { <<2023, 12, 30, 0, 0, 0, 0, 0>>, <<2024, 2, 27, 21, 0, 0, 0, 180>> }
AllStarts == QuickStarts \cup { <<2024, 12, 29, 3, 0, 0, 0, -180>>, <<2025, 2, 26, 0, 0, 0, 0, 360>>, <<2099, 12, 31, 0, 0, 0, 0, 0>> }
SameDay(a, b) == DateAt(a) = DateAt(b)
\* the pattern of a season matches the very instant
Fits(pat, v) == pat = 255 \/ pat = v
StartsAt(s, p) == LET q == Shifted(SubSeq(p, 1, 7), p[8], Zone(s))
                  IN MatchesDay(s, q[1], q[2], q[3]) /\ \A i \in 1..4 : Fits(s[5 + i], q[3 + i])
IdsOf(sea, p) == IF Specials(cal, p) # {} THEN {cal.spec[i].id : i \in Specials(cal, p)}
                 ELSE {cal.weeks[w].d[WeekdayOf(p[1], p[2], p[3])] : w \in UNION {WeekOf(cal, i) : i \in sea}}
DaysOf(sea, p) == {d \in DOMAIN cal.days : cal.days[d].id \in IdsOf(sea, p)}
StartNow(d, t) == {i \in DOMAIN cal.days[d].acts : \A k \in 1..4 : Fits(cal.days[d].acts[i].t[k], t[k])}
RECURSIVE Since(_, _)
\* what the day's actions have led to by hour h
Since(d, h) == IF h < 0 THEN {} ELSE LET x == StartNow(d, <<h, 0, 0, 0>>) IN IF x # {} THEN x ELSE Since(d, h - 1)

Init == /\ \E i \in Pick, k \in DOMAIN DaySets, j \in DOMAIN SpecSets :
             cal = [seasons |-> SeasonSets[i], weeks |-> Weeks, days |-> DaySets[k], spec |-> SpecSets[j]]
        /\ now \in Starts
        /\ season = Current(cal, now)
        /\ day = DaysOf(season, now)
        /\ act = UNION {Since(d, now[4]) : d \in day}
        /\ left = Steps
Tick == /\ left > 0
        /\ left' = left - 1
        /\ LET h == now[4] + Step IN now' = (IF h < 24 THEN DateAt(now) ELSE Tomorrow(now[1], now[2], now[3])) \o <<(h % 24), 0, 0, 0, now[8]>>
        /\ LET x == {i \in DOMAIN cal.seasons : StartsAt(cal.seasons[i].s, now')} IN season' = IF x # {} THEN x ELSE season
        /\ day' = DaysOf(season', now')
        /\ act' = IF day' = day /\ SameDay(now, now')
                  THEN (LET x == UNION {StartNow(d, TimeAt(now')) : d \in day} IN IF x # {} THEN x ELSE act)
                  ELSE UNION {Since(d, now'[4]) : d \in day'}
        /\ UNCHANGED cal
Next == Tick
Spec == Init /\ [][Next]_vars

LookupSeason == Current(cal, now) = season
LookupDay == Days(cal, now) = day
LookupAction == UNION {Actions(cal.days[d], now) : d \in day} = act
\* moments for the real calendar
Emit == PrintT(<<"GEN", ToJson([cal |-> cal, now |-> now])>>)
=============================================================================

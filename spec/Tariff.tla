-------------------------------- MODULE Tariff ------------------------------
(* Activity calendar and special days (Blue Book 4.5.4, 4.5.5).  A season    *)
(* [n, s, w] (name, start, week), a week [n, d] (name, seven day ids), a day *)
(* [id, acts], an action [t, sel] (start time, selector), a special day      *)
(* [d, id] (date, day id).  p: point in time <<y, m, d, h, mi, s, hs, off>>. *)
EXTENDS Dates

DateAt(p) == SubSeq(p, 1, 3)
TimeAt(p) == SubSeq(p, 4, 7)
\* instant a season began last, in UTC; <<>>: not yet
Began(s, p) == LET z == Zone(s) n == Nearest(s, Shifted(SubSeq(p, 1, 7), p[8], z)) IN IF n = <<>> THEN <<>> ELSE Shifted(n, z, 0)
\* the season begun last (several: begun at the same instant)
Current(cal, p) ==
  LET b == [i \in DOMAIN cal.seasons |-> Began(cal.seasons[i].s, p)]
      on == {i \in DOMAIN b : b[i] # <<>>}
  IN {i \in on : \A j \in on : LeT(b[j], b[i])}
WeekOf(cal, i) == {w \in DOMAIN cal.weeks : cal.weeks[w].n = cal.seasons[i].w}
\* dates of special days: FE last, FD last but one day of the month; FE and FD as month are not known to the client
SpecialDay(c, y, m, d) == /\ AnyYear(c) \/ YearOf(c) = y
                          /\ c[3] \in {255, m}
                          /\ \/ c[4] \in {255, d} \/ (c[4] = 254 /\ d = MonthLen(y, m)) \/ (c[4] = 253 /\ d = MonthLen(y, m) - 1)
                          /\ c[5] \in {255, WeekdayOf(y, m, d)}
Specials(cal, p) == {i \in DOMAIN cal.spec : SpecialDay(cal.spec[i].d, p[1], p[2], p[3])}
DayIds(cal, p) == IF Specials(cal, p) # {} THEN {cal.spec[i].id : i \in Specials(cal, p)}
                  ELSE LET wd == WeekdayOf(p[1], p[2], p[3]) IN {cal.weeks[w].d[wd] : w \in UNION {WeekOf(cal, i) : i \in Current(cal, p)}}
Days(cal, p) == {d \in DOMAIN cal.days : cal.days[d].id \in DayIds(cal, p)}
\* the action of that day started last
Actions(day, p) ==
  LET b == [i \in DOMAIN day.acts |-> NearestTime(day.acts[i].t, TimeAt(p))]
      on == {i \in DOMAIN b : b[i] # <<>>}
  IN {i \in on : \A j \in on : LeT(b[j], b[i])}

\* attribute that fails validation, 0: none; base 5 (active) or 9 (passive)
Unique(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Names(s) == [i \in DOMAIN s |-> s[i].n]
FirstBad(cal, base) ==
  LET ids == [i \in DOMAIN cal.days |-> cal.days[i].id]
  IN CASE ~Unique(ids) -> base
       [] ~Unique(Names(cal.weeks)) \/ (\E w \in DOMAIN cal.weeks : \E k \in 1..7 : cal.weeks[w].d[k] \notin Range2(ids)) -> base - 1
       [] ~Unique(Names(cal.seasons)) \/ (\E i \in DOMAIN cal.seasons : WeekOf(cal, i) = {}) -> base - 2
       [] OTHER -> 0
=============================================================================

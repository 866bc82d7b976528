------------------------------ MODULE MC_Dates -----------------------------
(* A date cell whose fields are set one by one, in any order, with any value *)
(* of the sets below; a refused setting changes nothing.                     *)
EXTENDS Dates
CONSTANTS Years, Months, Days, Weekdays, Bad
VARIABLE c
vars == c

Init == c = DefaultOf("d")
Try(f, v) == LET r == SetField("d", c, f, v) IN c' = r.c
SetYear == \E v \in Years \cup Bad : Try("year", v)
SetMonth == \E v \in Months \cup Bad : Try("month", v)
SetDay == \E v \in Days \cup Bad : Try("day", v)
SetWeekday == \E v \in Weekdays \cup Bad : Try("weekday", v)
\* text of the special months and days
FromText == \E m \in {253, 254, c[3]}, d \in {253, 254, c[4]} :
              LET r == Read("d", DateText(<<c[1], c[2], m, d, c[5]>>)) IN r.ok /\ c' = r.c
Next == SetYear \/ SetMonth \/ SetDay \/ SetWeekday \/ FromText
Spec == Init /\ [][Next]_vars

AlwaysValid == ValidDate(c)
\* text leads back to the same date
TextRoundTrip == Read("d", DateText(c)) = Good(c)
\* so it does inside a date-time with any of these times and deviations
Times == { <<0, 0, 0, 0>>, <<23, 59, 59, 99>>, <<255, 255, 255, 255>>, <<255, 7, 255, 50>>, <<12, 255, 30, 255>>, <<9, 5, 255, 255>> }
WholeRoundTrip == \A t \in Times, dv \in {Open, 0, 720, -720, -5} :
                    LET x == c \o t \o DevEnc(dv) \o <<255>> IN Dev(x) = dv /\ Valid("dt", x) /\ Read("dt", TextOf("dt", x)) = Good(x)
\* the Python date leads back to the date with its weekday
PyRoundTrip == (~AnyYear(c) /\ c[3] < 13 /\ c[4] < 32) => LET r == FromPy("d", "date", ToPyDate(c)) IN r.ok /\ ValidDate(r.c) /\ SubSeq(r.c, 1, 4) = SubSeq(c, 1, 4)
=============================================================================

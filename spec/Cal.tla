-------------------------------- MODULE Cal --------------------------------
(* Calendar of the COSEM date and time formats (Blue Book 4.1.6.1).          *)
(* date: year hi, year lo, month, day, weekday; time: hour, minute, second,  *)
(* hundredths; date-time adds deviation (2 octets) and clock status.         *)
EXTENDS Bytes

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
CumDays(m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m]
\* days from 0000-12-31 (0001-01-01 is day 1, a Monday)
DayNo(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
                  + CumDays(m) + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d
WeekdayOf(y, m, d) == ((DayNo(y, m, d) + 6) % 7) + 1
RealDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)

AnyYear(s) == s[1] = 255 /\ s[2] = 255
YearOf(s) == s[1] * 256 + s[2]
\* special months: FF not specified, FE/FD daylight saving begin/end; special days: FF, FE last, FD last but one
Special == {253, 254, 255}
ValidDate(s) ==
  /\ Len(s) = 5
  /\ AnyYear(s) \/ YearOf(s) \in 1..9999
  /\ s[3] \in 1..12 \cup Special
  /\ s[4] \in 1..31 \cup Special
  \* the day exists in that month (29 February if the year is open, 31 if the month is)
  /\ (s[3] <= 12 /\ s[4] <= 31) => s[4] <= MonthLen(IF AnyYear(s) THEN 4 ELSE YearOf(s), s[3])
  /\ s[5] \in 1..7 \cup {255}
  /\ (~AnyYear(s) /\ s[3] <= 12 /\ s[4] <= 31 /\ s[5] # 255) => s[5] = WeekdayOf(YearOf(s), s[3], s[4])
ValidTime(s) ==
  /\ Len(s) = 4
  /\ s[1] \in 0..23 \cup {255} /\ s[2] \in 0..59 \cup {255} /\ s[3] \in 0..59 \cup {255} /\ s[4] \in 0..99 \cup {255}
ValidDateTime(s) == Len(s) = 12 /\ ValidDate(SubSeq(s, 1, 5)) /\ ValidTime(SubSeq(s, 6, 9))
=============================================================================

-------------------------------- MODULE Dates ------------------------------
(* The date, time and date-time cells: what octets they take, their fields,  *)
(* their text, their Python counterparts, and the instants a pattern with    *)
(* open fields matches.  k: "dt" (12 octets), "d" (5), "t" (4).              *)
EXTENDS Cal

Size(k) == CASE k = "dt" -> 12 [] k = "d" -> 5 [] k = "t" -> 4
Valid(k, c) == CASE k = "dt" -> ValidDateTime(c) [] k = "d" -> ValidDate(c) [] k = "t" -> ValidTime(c)
DefaultOf(k) == CASE k = "dt" -> <<7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>> [] k = "d" -> <<7, 228, 1, 1, 3>> [] k = "t" -> <<0, 0, 0, 0>>
DateOf(k, c) == SubSeq(c, 1, 5)
TimeOf(k, c) == IF k = "dt" THEN SubSeq(c, 6, 9) ELSE c
\* deviation in minutes; Open if not specified
Open == 99999
Dev(c) == LET v == c[10] * 256 + c[11] IN IF v = 32768 THEN Open ELSE IF v > 32768 THEN v - 65536 ELSE v
DevEnc(v) == IF v = Open THEN <<128, 0>> ELSE BE(IF v < 0 THEN v + 65536 ELSE v, 2)
AllOpen == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 128, 0, 255>>

\* ------------------------------------------------------------------- fields
FieldNames == {"year", "month", "day", "weekday", "hour", "minute", "hundredths"}
FieldRange(f) == CASE f = "year" -> 1..9999 \cup {65535}
                   [] f = "month" -> 1..12 \cup {255}
                   [] f = "day" -> 1..31 \cup {255}
                   [] f = "weekday" -> 1..7 \cup {255}
                   [] f = "hour" -> 0..23 \cup {255}
                   [] f = "minute" -> 0..59 \cup {255}
                   [] f = "hundredths" -> 0..99 \cup {255}
FieldPos(k, f) == CASE f = "month" -> 3 [] f = "day" -> 4 [] f = "weekday" -> 5
                    [] OTHER -> (IF k = "dt" THEN 5 ELSE 0) + (CASE f = "hour" -> 1 [] f = "minute" -> 2 [] f = "hundredths" -> 4)
\* [ok, c]: the cell after the field was set, refused if the field or the whole would be wrong
SetField(k, c, f, v) ==
  LET no == [ok |-> FALSE, c |-> c]
      n == IF f = "year" THEN BE(v, 2) \o Drop(c, 2) ELSE [c EXCEPT ![FieldPos(k, f)] = v]
  IN IF v \notin FieldRange(f) THEN no ELSE IF ~Valid(k, n) THEN no ELSE [ok |-> TRUE, c |-> n]

\* --------------------------------------------------------------------- text
Two(v) == <<48 + v \div 10, 48 + (v % 10)>>
Four(v) == Two(v \div 100) \o Two(v % 100)
Blank == <<95, 95>>
\* shown in Russian: Mon..Sun
DayAbbr == << <<1087, 1086, 1085>>, <<1074, 1090, 1086>>, <<1089, 1088, 1077>>, <<1095, 1077, 1090>>, <<1087, 1103, 1090>>, <<1089, 1091, 1073>>, <<1074, 1086, 1089>> >>
\* read: also the two-letter ones and the English ones
DayRead == << { <<1087, 1086>>, <<1087, 1086, 1085>>, <<109, 111>>, <<109, 111, 110>> }, { <<1074, 1090>>, <<1074, 1090, 1086>>, <<116, 117>>, <<116, 117, 101>> },
              { <<1089, 1088>>, <<1089, 1088, 1077>>, <<119, 101>>, <<119, 101, 100>> }, { <<1095, 1090>>, <<1095, 1077, 1090>>, <<116, 104>>, <<116, 104, 117>> },
              { <<1087, 1090>>, <<1087, 1103, 1090>>, <<102, 114>>, <<102, 114, 105>> }, { <<1089, 1073>>, <<1089, 1091, 1073>>, <<115, 97>>, <<115, 97, 116>> },
              { <<1074, 1089>>, <<1074, 1086, 1089>>, <<115, 117>>, <<115, 117, 110>> } >>
W_begin == <<98, 101, 103, 105, 110>>
W_end == <<101, 110, 100>>
W_last == <<108, 97, 115, 116>>
W_penult == <<112, 101, 110, 117, 108, 116>>
DateText(c) ==
  LET m == CASE c[3] = 255 -> Blank [] c[3] = 254 -> W_begin [] c[3] = 253 -> W_end [] OTHER -> Two(c[3])
      d == CASE c[4] = 255 -> Blank [] c[4] = 254 -> W_last [] c[4] = 253 -> W_penult [] OTHER -> Two(c[4])
      w == IF c[5] = 255 THEN <<>> ELSE <<45>> \o DayAbbr[c[5]]
      y == IF AnyYear(c) THEN (IF w = <<>> THEN <<>> ELSE <<46>> \o Blank \o Blank) ELSE <<46>> \o Four(YearOf(c))
  IN d \o <<46>> \o m \o y \o w
TimeText(t) ==
  LET f == IF t[4] = 255 THEN <<>> ELSE <<46>> \o Two(t[4])
      s == IF t[3] = 255 THEN (IF f = <<>> THEN <<>> ELSE <<58>> \o Blank) ELSE <<58>> \o Two(t[3])
      n(v) == IF v = 255 THEN Blank ELSE Two(v)
  IN n(t[1]) \o <<58>> \o n(t[2]) \o s \o f
RECURSIVE Nat10(_)
Nat10(v) == IF v < 10 THEN <<48 + v>> ELSE Nat10(v \div 10) \o <<48 + (v % 10)>>
DevText(v) == IF v = Open THEN <<>> ELSE IF v < 0 THEN <<45>> \o Nat10(-v) ELSE Nat10(v)
TextOf(k, c) == CASE k = "dt" -> DateText(c) \o <<32>> \o TimeText(SubSeq(c, 6, 9)) \o <<32>> \o DevText(Dev(c))
                  [] k = "d" -> DateText(c) [] k = "t" -> TimeText(c)

\* reading.  Every reader gives [ok, c]
NoText == [ok |-> FALSE, c |-> <<>>]
Good(c) == [ok |-> TRUE, c |-> c]
Digit10(x) == x \in 48..57
IsNumber(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit10(s[i])
Value10(s) == FoldLeft(LAMBDA a, b : 10 * a + (b - 48), 0, s)          \* at most nine digits
IsBlank(s, n) == Len(s) <= n /\ \A i \in 1..Len(s) : s[i] = 95
\* parts of s between the separators in set seps, and the separators
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, seps, part, acc) == IF s = <<>> THEN [parts |-> Append(acc.parts, part), seps |-> acc.seps]
                               ELSE IF s[1] \in seps THEN SplitAt(Tail(s), seps, <<>>, [parts |-> Append(acc.parts, part), seps |-> Append(acc.seps, s[1])])
                               ELSE SplitAt(Tail(s), seps, Append(part, s[1]), acc)
Split(s, seps) == SplitAt(s, seps, <<>>, [parts |-> <<>>, seps |-> <<>>])
Number(s, lo, hi, special) ==      \* special: set of <<text, octet>>
  IF IsBlank(s, 2) THEN Good(<<255>>)
  ELSE IF IsNumber(s) /\ Len(s) <= 9 /\ Value10(s) \in lo..hi THEN Good(<<Value10(s)>>)
  ELSE IF \E p \in special : p[1] = s THEN Good(<<(CHOOSE p \in special : p[1] = s)[2]>>) ELSE NoText
ReadYear(s) == IF IsBlank(s, 4) THEN Good(<<255, 255>>)
               ELSE IF IsNumber(s) /\ Len(s) <= 4 THEN Good(BE(IF Len(s) <= 2 THEN 2000 + Value10(s) ELSE Value10(s), 2)) ELSE NoText
ReadMonth(s) == Number(s, 1, 12, { <<W_begin, 254>>, <<W_end, 253>> })
ReadDay(s) == Number(s, 1, 31, { <<W_last, 254>>, <<W_penult, 253>> })
ReadWeekday(s) == LET r == Number(s, 1, 7, {})
                  IN IF r.ok THEN r ELSE IF \E i \in 1..7 : s \in DayRead[i] THEN Good(<<CHOOSE i \in 1..7 : s \in DayRead[i]>>) ELSE NoText
Join4(a, b, c, d) == IF a.ok /\ b.ok /\ c.ok /\ d.ok THEN Good(a.c \o b.c \o c.c \o d.c) ELSE NoText
Y_ == Good(<<255, 255>>)
N_ == Good(<<255>>)
ReadDate(s) ==
  LET x == Split(s, {46, 45})
      p(i) == x.parts[i]
  IN CASE x.seps = <<>> -> IF IsNumber(s) THEN Join4(Y_, N_, ReadDay(s), N_) ELSE Join4(Y_, N_, N_, ReadWeekday(s))
       [] x.seps = <<46>> -> Join4(Y_, ReadMonth(p(2)), ReadDay(p(1)), N_)
       [] x.seps = <<46, 46>> -> Join4(ReadYear(p(3)), ReadMonth(p(2)), ReadDay(p(1)), N_)
       [] x.seps = <<46, 45>> -> Join4(Y_, ReadMonth(p(2)), ReadDay(p(1)), ReadWeekday(p(3)))
       [] x.seps = <<45, 46>> -> Join4(Y_, ReadMonth(p(3)), ReadDay(p(2)), ReadWeekday(p(1)))
       [] x.seps = <<46, 46, 45>> -> Join4(ReadYear(p(3)), ReadMonth(p(2)), ReadDay(p(1)), ReadWeekday(p(4)))
       [] x.seps = <<45, 46, 46>> -> Join4(ReadYear(p(4)), ReadMonth(p(3)), ReadDay(p(2)), ReadWeekday(p(1)))
       [] OTHER -> NoText
ReadHour(s) == Number(s, 0, 23, {})
ReadMin(s) == Number(s, 0, 59, {})
ReadHun(s) == IF Len(s) <= 2 THEN Number(s, 0, 99, {}) ELSE NoText
ReadTime(s) ==
  LET x == Split(s, {58, 46})
      p(i) == x.parts[i]
  IN CASE x.seps = <<>> -> Join4(ReadHour(s), N_, N_, N_)
       [] x.seps = <<58>> -> Join4(ReadHour(p(1)), ReadMin(p(2)), N_, N_)
       [] x.seps = <<46>> -> Join4(N_, N_, ReadMin(p(1)), ReadHun(p(2)))
       [] x.seps = <<58, 58>> -> Join4(ReadHour(p(1)), ReadMin(p(2)), ReadMin(p(3)), N_)
       [] x.seps = <<58, 46>> -> Join4(N_, ReadMin(p(1)), ReadMin(p(2)), ReadHun(p(3)))
       [] x.seps = <<58, 58, 46>> -> Join4(ReadHour(p(1)), ReadMin(p(2)), ReadMin(p(3)), ReadHun(p(4)))
       [] OTHER -> NoText
ReadDev(s) ==
  LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
      v == IF IsNumber(d) /\ Len(d) <= 9 THEN (IF s[1] = 45 THEN -Value10(d) ELSE Value10(d)) ELSE Open
  IN IF s = <<>> THEN Good(<<128, 0>>) ELSE IF s = <<45>> THEN Good(<<0, 0>>) ELSE IF v \in -720..720 THEN Good(DevEnc(v)) ELSE NoText
\* at most three parts between spaces; the third keeps the rest
ReadDateTime(s) ==
  LET i == FindFrom(s, 32, 1)
      j == IF i = 0 THEN 0 ELSE FindFrom(s, 32, i + 1)
      dat == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
      tim == IF i = 0 THEN <<>> ELSE IF j = 0 THEN Drop(s, i) ELSE SubSeq(s, i + 1, j - 1)
      dev == IF j = 0 THEN <<>> ELSE Drop(s, j)
  IN Join4(ReadDate(dat), IF i = 0 THEN Good(<<255, 255, 255, 255>>) ELSE ReadTime(tim), ReadDev(dev), Good(<<255>>))
Read(k, s) == LET r == CASE k = "dt" -> ReadDateTime(s) [] k = "d" -> IF 32 \in Range2(s) THEN NoText ELSE ReadDate(s) [] k = "t" -> IF 32 \in Range2(s) THEN NoText ELSE ReadTime(s)
              IN IF r.ok /\ Valid(k, r.c) THEN r ELSE NoText

\* -------------------------------------------- Python dates and times (p: sequences)
\* datetime <<y, m, d, h, mi, s, us, off>> (off Open: naive), date <<y, m, d>>, time <<h, mi, s, us>>
PyTime(p) == <<p[1], p[2], p[3], p[4] \div 10000>>
PyDate(p) == BE(p[1], 2) \o <<p[2], p[3]>>
FromPy(k, kind, p) ==
  CASE k = "dt" /\ kind = "datetime" -> Good(PyDate(p) \o <<255>> \o PyTime(SubSeq(p, 4, 7)) \o DevEnc(p[8]) \o <<255>>)
    [] k = "dt" /\ kind = "date" -> Good(PyDate(p) \o <<WeekdayOf(p[1], p[2], p[3])>> \o Drop(AllOpen, 5))
    [] k = "dt" /\ kind = "time" -> Good(<<255, 255, 255, 255, 255>> \o PyTime(p) \o <<128, 0, 255>>)
    [] k = "d" /\ kind \in {"datetime", "date"} -> Good(PyDate(p) \o <<WeekdayOf(p[1], p[2], p[3])>>)
    [] k = "t" /\ kind = "datetime" -> Good(PyTime(SubSeq(p, 4, 7)))
    [] k = "t" /\ kind = "time" -> Good(PyTime(p))
    [] OTHER -> NoText
\* open fields become their smallest value
Def(v, d) == IF v \in Special THEN d ELSE v
ToPyDate(c) == <<IF AnyYear(c) THEN 1 ELSE YearOf(c), Def(c[3], 1), Def(c[4], 1)>>
ToPyTime(t) == [i \in 1..4 |-> IF t[i] = 255 THEN 0 ELSE t[i]]
HasPy(k, c) == /\ k # "t" => RealDate(ToPyDate(c)[1], ToPyDate(c)[2], ToPyDate(c)[3])
               /\ k = "dt" => Dev(c) \in -1439..1439 \cup {Open}
ToPy(k, c) == CASE k = "dt" -> ToPyDate(c) \o ToPyTime(TimeOf(k, c)) \o <<IF Dev(c) = Open THEN 0 ELSE Dev(c)>>
                [] k = "d" -> ToPyDate(c) [] k = "t" -> ToPyTime(c)

\* ------------------------------------------------------- instants of a pattern
\* the latest match not after a point; tuples compared field by field
LeT(a, b) == \/ a = b
             \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* pat: fields or 255 (open); top: largest value of each field.  The greatest tuple matching pat and <= t: keep the
\* first i - 1 fields of t, take a smaller one at i, the largest after it
LastLe(pat, top, t) ==
  LET n == Len(pat)
      hi(i) == IF pat[i] = 255 THEN top[i] ELSE pat[i]
      agrees(i) == \A j \in 1..(i - 1) : pat[j] \in {255, t[j]}
      below(i) == IF pat[i] = 255 THEN t[i] > 0 ELSE pat[i] < t[i]
      cand(i) == [j \in 1..n |-> IF j < i THEN t[j] ELSE IF j > i THEN hi(j) ELSE IF pat[j] = 255 THEN t[j] - 1 ELSE pat[j]]
      all == {i \in 1..n : agrees(i) /\ below(i)}
  IN IF agrees(n + 1) THEN [ok |-> TRUE, t |-> t]
     ELSE IF all = {} THEN [ok |-> FALSE, t |-> <<>>] ELSE [ok |-> TRUE, t |-> cand(CHOOSE i \in all : \A j \in all : j <= i)]
TopTime == <<23, 59, 59, 99>>
Earliest(t) == [i \in 1..4 |-> IF t[i] = 255 THEN 0 ELSE t[i]]

MatchesDay(c, y, m, d) == /\ AnyYear(c) \/ YearOf(c) = y
                          /\ c[3] \in {255, m} /\ c[4] \in {255, d}
                          /\ c[5] \in {255, WeekdayOf(y, m, d)}
\* latest day of year y, not after <<m1, d1>>, that the pattern c matches; 0 if none
RECURSIVE InMonth(_, _, _, _)
InMonth(c, y, m, d) == IF d = 0 THEN 0 ELSE IF MatchesDay(c, y, m, d) THEN d ELSE InMonth(c, y, m, d - 1)
RECURSIVE InYear(_, _, _, _)
InYear(c, y, m, d) == IF m = 0 THEN <<>>
                      ELSE LET k == IF c[3] \in {255, m} THEN InMonth(c, y, m, Min2(d, MonthLen(y, m))) ELSE 0
                           IN IF k > 0 THEN <<y, m, k>> ELSE InYear(c, y, m - 1, 31)
\* every pattern that matches some day matches one within any 40 years (29 February on a given weekday)
RECURSIVE LastDay(_, _, _, _, _)
LastDay(c, y, m, d, n) ==
  IF n = 0 \/ y < 1 THEN <<>>
  ELSE LET r == IF AnyYear(c) \/ YearOf(c) = y THEN InYear(c, y, m, d) ELSE <<>> IN IF r # <<>> THEN r ELSE LastDay(c, y - 1, 12, 31, n - 1)
LastMatchingDay(c, y, m, d) == IF ~AnyYear(c) /\ YearOf(c) > y THEN <<>>
                               ELSE IF ~AnyYear(c) /\ YearOf(c) < y THEN LastDay(c, YearOf(c), 12, 31, 1) ELSE LastDay(c, y, m, d, 45)
Yesterday(y, m, d) == IF d > 1 THEN <<y, m, d - 1>> ELSE IF m > 1 THEN <<y, m - 1, MonthLen(y, m - 1)>> ELSE <<y - 1, 12, 31>>
Tomorrow(y, m, d) == IF d < MonthLen(y, m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
\* the point <<y, m, d, h, mi, s, hs>> kept at offset from, seen at offset to (minutes)
Shifted(p, from, to) ==
  LET v == p[4] * 60 + p[5] + to - from
      k == IF v < 0 THEN -1 ELSE IF v >= 1440 THEN 1 ELSE 0
      w == v - 1440 * k
      d == CASE k = -1 -> Yesterday(p[1], p[2], p[3]) [] k = 1 -> Tomorrow(p[1], p[2], p[3]) [] OTHER -> SubSeq(p, 1, 3)
  IN d \o <<w \div 60, (w % 60), p[6], p[7]>>
\* day on which the latest match falls: its earliest time must not be after the point
NearDay(c, p) ==
  LET q == IF LeT(Earliest(SubSeq(c, 6, 9)), SubSeq(p, 4, 7)) THEN SubSeq(p, 1, 3) ELSE Yesterday(p[1], p[2], p[3])
  IN LastMatchingDay(c, q[1], q[2], q[3])
\* p in the pattern's own zone
Nearest(c, p) ==
  LET d == NearDay(c, p)
      pat == SubSeq(c, 6, 9)
  IN IF d = <<>> THEN <<>>
     ELSE d \o (IF d = SubSeq(p, 1, 3) THEN LastLe(pat, TopTime, SubSeq(p, 4, 7)).t ELSE [i \in 1..4 |-> IF pat[i] = 255 THEN TopTime[i] ELSE pat[i]])
NearestTime(pat, t) == LET r == LastLe(pat, TopTime, t) IN r.t
Zone(c) == IF Dev(c) = Open THEN 0 ELSE Dev(c)
=============================================================================

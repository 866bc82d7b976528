------------------------------ MODULE Readouts ------------------------------
(* What a person reads and what a person may enter: messages with words to   *)
(* be translated, names of events, packed numbers, the report of an object's *)
(* attributes, and the values a meter's parameters are limited to.           *)
(* Texts are sequences of code points.                                       *)
EXTENDS Integers, Sequences, FiniteSets

\* decimal text of a natural number
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
SDec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
\* a table is a sequence of [k |-> key, t |-> text]
TextIn(tab, k, none) == LET is == {i \in DOMAIN tab : tab[i].k = k} IN IF is = {} THEN none ELSE tab[CHOOSE i \in is : TRUE].t

\* --- messages: $word$ is translated, $$ is a dollar --------------------
Dollar == 36
Closing(s) == {i \in 2..Len(s) : s[i] = Dollar}
FirstOf(is) == CHOOSE i \in is : \A j \in is : i <= j
WordText(tab, w) == LET t == TextIn(tab, w, <<>>) IN IF t = <<>> THEN w ELSE t
RECURSIVE Message(_, _)
Message(tab, s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # Dollar THEN <<s[1]>> \o Message(tab, Tail(s))
  ELSE IF Len(s) > 1 /\ s[2] = Dollar THEN <<Dollar>> \o Message(tab, SubSeq(s, 3, Len(s)))
  ELSE IF Closing(s) = {} THEN WordText(tab, Tail(s))
  ELSE LET i == FirstOf(Closing(s)) IN WordText(tab, SubSeq(s, 2, i - 1)) \o Message(tab, SubSeq(s, i + 1, Len(s)))
\* every word of it is closed
RECURSIVE Closed(_)
Closed(s) == IF s = <<>> THEN TRUE
             ELSE IF s[1] # Dollar THEN Closed(Tail(s))
             ELSE IF Len(s) > 1 /\ s[2] = Dollar THEN Closed(SubSeq(s, 3, Len(s)))
             ELSE Closing(s) # {} /\ Closed(SubSeq(s, FirstOf(Closing(s)) + 1, Len(s)))

\* --- names of events: one of a list, or a set of flags ---------------------
InBrackets(n) == <<40>> \o Dec(n) \o <<41>>
EventText(tab, n) == TextIn(tab, n, <<101, 114, 114, 111, 114, 32, 101, 110, 117, 109>>) \o InBrackets(n)
RECURSIVE FlagTexts(_, _, _)
FlagTexts(tab, n, b) == IF n = 0 THEN <<>>
                        ELSE (IF n % 2 = 1 THEN <<TextIn(tab, 2 ^ b, <<117, 110, 107, 110, 111, 119, 110, 32, 98, 105, 116, 58, 32>> \o Dec(b))>> ELSE <<>>) \o FlagTexts(tab, n \div 2, b + 1)
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
FlagsText(tab, n) == Joined(FlagTexts(tab, n, 0), <<46, 32>>) \o InBrackets(n)

\* --- packed numbers ---------------------------------------------------------
\* the port: the channel in three bits under the interface
Channel(b) == b % 8
Interface(b) == b \div 8
WithChannel(b, c) == Interface(b) * 8 + c
WithInterface(b, i) == i * 8 + Channel(b)
PortText(b, cs, is) == <<1053, 1086, 1084, 1077, 1088, 32, 1082, 1072, 1085, 1072, 1083, 1072, 32, 1089, 1074, 1103, 1079, 1080, 58, 32>> \o cs[Channel(b) + 1] \o <<44, 32, 1058, 1080, 1087, 32, 1080, 1085, 1090, 1077, 1088, 1092, 1077, 1081, 1089, 1072, 58, 32>> \o is[Interface(b) + 1]
\* the seals: of the cover in the two lowest bits, of the terminals in the next two
SealWord(x) == CASE x = 0 -> <<36, 117, 110, 100, 101, 102, 105, 110, 101, 100, 36>> [] x = 1 -> <<36, 99, 111, 110, 116, 101, 110, 116, 105, 111, 110, 115, 36>> [] x = 2 -> <<36, 98, 114, 101, 97, 107, 101, 100, 95, 111, 112, 101, 110, 36>> [] x = 3 -> <<36, 115, 117, 98, 115, 101, 113, 117, 101, 110, 116, 95, 97, 117, 116, 111, 112, 115, 121, 36>>
SealTemplate(b) == <<36, 101, 108, 101, 99, 116, 114, 111, 110, 105, 99, 95, 115, 101, 97, 108, 115, 36, 58, 32, 36, 102, 111, 114, 95, 99, 111, 118, 101, 114, 36, 32, 45, 32>> \o SealWord(b % 4) \o <<44, 32, 36, 102, 111, 114, 95, 116, 101, 114, 109, 105, 110, 97, 108, 115, 95, 99, 111, 118, 101, 114, 36, 32, 45, 32>> \o SealWord((b \div 4) % 4)
\* the signal of a GSM modem (3GPP TS 27.007, 8.5)
SignalTemplate(b) ==
  CASE b = 0 -> <<8211, 49, 49, 51, 32, 100, 66, 109, 32, 36, 111, 114, 36, 32, 36, 108, 101, 115, 115, 36, 40, 48, 41>>
    [] b = 1 -> <<8211, 49, 49, 49, 32, 100, 66, 109, 40, 49, 41>>
    [] b \in 2..30 -> SDec(2 * b - 113) \o <<32, 100, 66, 109>> \o InBrackets(b)
    [] b = 31 -> <<8211, 53, 49, 32, 100, 66, 109, 32, 36, 111, 114, 36, 32, 36, 103, 114, 101, 97, 116, 101, 114, 36, 40, 51, 49, 41>>
    [] b = 99 -> <<36, 110, 111, 116, 95, 107, 110, 111, 119, 110, 95, 111, 114, 95, 110, 111, 116, 95, 100, 101, 116, 101, 99, 116, 97, 98, 108, 101, 36>>
    [] OTHER -> <<119, 114, 111, 110, 103, 32, 118, 97, 108, 117, 101, 61>> \o Dec(b)

\* --- values with limits ------------------------------------------------------
Periods == {1, 2, 3, 5, 10, 15, 20, 30, 60}
PeriodOk(n) == n \in Periods
SapOk(n) == n \in 0..16383
\* the version of a specification: two numbers, not both zero
SpecVersionOk(v) == Len(v) = 2 /\ v # <<0, 0>>
\* an address: up to four numbers between points, a missing one is zero
RECURSIVE Split(_, _)
Split(s, sep) == LET is == {i \in DOMAIN s : s[i] = sep}
                 IN IF is = {} THEN <<s>> ELSE LET i == FirstOf(is) IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), sep)
Digits(s) == \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE NumberOf(_)
NumberOf(s) == IF s = <<>> THEN 0 ELSE NumberOf(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
ByteText(s) == Digits(s) /\ Len(NoZeros(s)) <= 3 /\ NumberOf(NoZeros(s)) <= 255
Address(s) == LET ps == Split(s, 46)
              IN IF Len(ps) <= 4 /\ \A i \in DOMAIN ps : ByteText(ps[i])
                 THEN [ok |-> TRUE, a |-> [i \in 1..4 |-> IF i <= Len(ps) THEN NumberOf(NoZeros(ps[i])) ELSE 0]]
                 ELSE [ok |-> FALSE, a |-> <<0, 0, 0, 0>>]
AddressText(a) == Joined([i \in 1..4 |-> Dec(a[i])], <<46>>)
\* firmware versions: three numbers; a meter newer than its description is refused
Newer(v, w) == \/ v[1] > w[1]
               \/ v[1] = w[1] /\ v[2] > w[2]
               \/ v[1] = w[1] /\ v[2] = w[2] /\ v[3] > w[3]

\* the version a meter is described for: kept for each instance, changed only by force; an older patch of it fits
ServerSet(old, v, force) == IF old = <<>> \/ force THEN [ok |-> TRUE, v |-> v]
                            ELSE [ok |-> v[1] = old[1] /\ v[2] = old[2] /\ v[3] <= old[3], v |-> old]

\* --- the report of an object --------------------------------------------------
\* a value: [k |-> "leaf" / "array" / "struct", n |-> name as an element, t |-> text of a leaf, p |-> pattern, x |-> elements]
Line(d, s) == [i \in 1..d |-> 32] \o s \o <<10>>
Headed(s) == <<91>> \o s \o <<93>>
\* %n00 is the name of element 0, %v00 its text
RECURSIVE Filled(_, _)
Filled(p, x) == IF p = <<>> THEN <<>>
                ELSE IF p[1] # 37 THEN <<p[1]>> \o Filled(Tail(p), x)
                ELSE LET i == NumberOf(SubSeq(p, 3, 4)) + 1
                     IN (IF p[2] = 110 THEN x[i].n ELSE x[i].t) \o Filled(SubSeq(p, 5, Len(p)), x)
RECURSIVE Below(_, _, _)
\* the lines of elements x under indent d; how: the name each is given ("own", or that of an array's item, or none)
Below(x, d, how) ==
  IF x = <<>> THEN <<>>
  ELSE LET v == x[1]
           name == CASE how = "own" -> v.n [] how = "item" -> <<42>> [] OTHER -> <<>>
           rest == Below(Tail(x), d, how)
       IN CASE v.k = "leaf" -> Line(d, name \o <<58, 32>> \o v.t) \o rest
            [] v.k = "array" -> Line(d, Headed(name)) \o Below(v.x, d + 1, "item") \o rest
            [] v.k = "struct" -> (IF v.p # <<>> THEN Line(d, Filled(v.p, v.x))
                                  ELSE (IF name = <<>> THEN <<10>> ELSE Line(d, Headed(name))) \o Below(v.x, d + 1, "own")) \o rest
\* the elements of the attribute itself may be shown with or without their names
AttrTexts(v) == CASE v.k = "none" -> {<<>>}
                  [] v.k = "leaf" -> {Line(2, v.n \o <<58, 32>> \o v.t)}
                  [] v.k = "array" -> {Line(2, Headed(v.n)) \o Below(v.x, 2, how) : how \in {"none", "item"}}
                  [] OTHER -> {Line(2, Headed(v.n)) \o Below(v.x, 2, how) : how \in {"none", "own"}}
RECURSIVE Reports(_)
Reports(vs) == IF vs = <<>> THEN {<<>>} ELSE {a \o b : a \in AttrTexts(vs[1]), b \in Reports(Tail(vs))}
ReportOf(name, vs) == {Headed(name) \o <<10>> \o r : r \in Reports(vs)}
=============================================================================

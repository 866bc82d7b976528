-------------------------------- MODULE Obis --------------------------------
(* Which interface class an object of a given OBIS name may have (Blue Book  *)
(* Table 54, СПОДЭС 3, manufacturer KPZ).  A row is a key and the kinds of   *)
(* objects under it; keys are A C, A C D, A C D E or A B C D E, and of       *)
(* several rows with the name's key the last one holds.                      *)
EXTENDS Integers, Sequences, FiniteSets

Common == {"DATA", "REG", "EXT", "DEM", "ACTIV", "PROF", "CLOCK", "SCRIPT", "SCHED", "SPEC", "ASS", "IMG", "CAL", "MON", "SINGLE",
           "HDLC", "MODEM", "TCP", "IP4", "GPRS", "GSM", "SEC", "ARB", "DISC", "LIM", "NTP"}
\* class and versions that are supported
ClassOf(k) ==
  CASE k = "REG" -> <<3, {0}>> [] k = "EXT" -> <<4, {0}>> [] k = "DEM" -> <<5, {0}>> [] k = "ACTIV" -> <<6, {0}>>
    [] k \in {"PROF", "P.disp", "P.month", "P.day", "P.load", "P.cur", "P.scal"} -> <<7, {1}>>
    [] k = "CLOCK" -> <<8, {0}>> [] k = "SCRIPT" -> <<9, {0}>> [] k = "SCHED" -> <<10, {0}>> [] k = "SPEC" -> <<11, {0}>>
    [] k = "ASS" -> <<15, {0, 1, 2}>> [] k = "IMG" -> <<18, {0}>> [] k = "CAL" -> <<20, {0}>> [] k = "MON" -> <<21, {0}>>
    [] k = "SINGLE" -> <<22, {0}>> [] k = "HDLC" -> <<23, {1}>> [] k = "MODEM" -> <<27, {0, 1}>> [] k = "PUSH" -> <<40, {2}>>
    [] k = "TCP" -> <<41, {0}>> [] k = "IP4" -> <<42, {0}>> [] k = "GPRS" -> <<45, {0}>> [] k = "GSM" -> <<47, {0, 1}>>
    [] k = "SEC" -> <<64, {0, 1}>> [] k \in {"ARB", "ARB.ru"} -> <<68, {0}>> [] k = "DISC" -> <<70, {0}>> [] k = "LIM" -> <<71, {0}>>
    [] k = "NTP" -> <<100, {0}>> [] OTHER -> <<1, {0}>>

R(key, kinds) == [k |-> key, m |-> kinds]
R2(a, c, m) == R(<<{a}, {c}>>, m)
R3(a, c, d, m) == R(<<{a}, c, d>>, m)
R4(a, c, d, e, m) == R(<<{a}, {c}, d, e>>, m)
R5(b, c, d, e, m) == R(<<{0}, {b}, c, {d}, e>>, m)
DRE == {"DATA", "REG", "EXT"}
DP == {"DATA", "PROF"}

Cumulative == {1, 2, 11, 12, 21, 22}
Extremes == {3, 6, 13, 16, 26, 51, 52, 53, 54}
Averages == {0, 4, 5, 14, 15, 24, 25, 27, 28, 49, 50, 55, 56}
Instant == {7, 39, 41, 42}
Integrals == {8, 9, 10, 17, 18, 19, 20, 29, 30, 58}
Limits == {31, 35, 43, 44} \cup {32, 36} \cup {33, 37} \cup {34, 38}
Measured == (0..255) \ {0, 93, 94, 96, 97, 98, 99}

RowsDlms == <<
  R3(0, {0}, {1, 2, 9}, {"DATA"}), R4(0, 0, {2}, {1}, {"D.fw"}),
  R3(0, {1}, {0}, {"CLOCK"}), R3(0, {1}, 1..6, {"DATA"}), R4(0, 2, {0}, {0}, {"MODEM"}),
  R4(0, 10, {0}, {0, 1, 125} \cup 100..111, {"SCRIPT"}), R3(0, {11}, {0}, {"SPEC"}), R3(0, {12}, {0}, {"SCHED"}),
  R3(0, {13}, {0}, {"CAL"}), R3(0, {14}, {0}, {"ACTIV"}), R4(0, 15, {0}, 0..7, {"SINGLE"}),
  R3(0, {16}, {0}, {"MON"}), R4(0, 16, {1}, 0..9, {"MON"}), R3(0, {17}, {0}, {"LIM"}),
  R4(0, 19, 50..59, {1, 2}, {"DATA"}),
  R3(0, {21}, {0}, DP), R4(0, 22, {0}, {0}, {"HDLC"}),
  R4(0, 23, {2}, {0}, {"DATA"}), R4(0, 23, {3}, 0..9, DP), R4(0, 23, {3}, 10..255, {"DATA"}),
  R3(0, {24}, {2}, {"EXT"}), R3(0, {24}, {3}, {"PROF"}), R4(0, 24, {4}, {0}, {"DISC"}), R4(0, 24, {5}, {0}, {"PROF"}),
  R4(0, 25, {0}, {0}, {"TCP"}), R4(0, 25, {1}, {0}, {"IP4"}), R4(0, 25, {4}, {0}, {"GPRS"}), R4(0, 25, {6}, {0}, {"GSM"}),
  R4(0, 25, {9}, {0}, {"PUSH"}), R4(0, 25, {10}, {0}, {"NTP"}),
  R5(0, {40}, 0, 0..7, {"ASS"}), R5(0, {42}, 0, {0}, {"D.ldn"}), R5(0, {43}, 0, 0..255, {"SEC"}), R3(0, {43}, {1}, {"DATA"}),
  R5(0, {44}, 0, 0..255, {"IMG"}),
  R4(0, 96, {1}, 0..10, {"D.id"}), R4(0, 96, {1}, {255}, {"PROF"}), R3(0, {96}, {2}, {"D.dyn"}),
  R4(0, 96, {3}, 0..3, {"DATA"}), R4(0, 96, {3}, {10}, {"DISC"}), R4(0, 96, {3}, 20..28, {"ARB"}),
  R4(0, 96, {4, 5}, {0}, DP), R4(0, 96, {4, 5}, 1..4, {"DATA"}),
  R4(0, 96, {6}, 0..6, DRE), R4(0, 96, {7}, 0..21, DRE), R4(0, 96, {8}, 0..63, DRE), R4(0, 96, {9}, 0..2, {"REG", "EXT"}),
  R4(0, 96, {10}, 1..9, {"DATA"}), R4(0, 96, {11}, 0..99, {"D.dyn", "REG", "EXT"}),
  R4(0, 96, {12}, {0, 1, 2, 3, 5, 6}, DRE), R4(0, 96, {12}, {4}, {"D.port"}), R4(0, 96, {13}, {0, 1}, DRE),
  R4(0, 96, {14}, 0..15, DRE), R4(0, 96, {15}, 0..99, DRE), R4(0, 96, {16}, 0..9, DRE), R4(0, 96, {17}, 0..127, DRE),
  R3(0, {96}, {20}, DRE),
  R4(0, 97, {97}, 0..9, {"DATA"}), R4(0, 97, {97, 98}, {255}, {"PROF"}), R4(0, 97, {98}, 0..29, {"DATA"}),
  R2(0, 98, {"PROF"}), R3(0, {99}, {98}, {"PROF"}),
  R4(1, 0, {0}, 0..9, {"DATA"}), R4(1, 0, {0}, {255}, {"PROF"}), R3(1, {0}, {1}, {"DATA"}), R3(1, {0}, {2}, {"D.stat"}),
  R3(1, {0}, {3, 4, 7, 8, 9}, {"D.stat", "REG", "EXT"}), R3(1, {0}, {6, 10}, {"REG", "EXT"}), R4(1, 0, {11}, 1..7, {"DATA"}),
  R4(1, 96, {1}, 0..9, {"DATA"}), R4(1, 96, {1}, {255}, {"PROF"}), R4(1, 96, {5}, 0..5, {"DATA"}), R4(1, 96, {10}, 0..3, {"DATA"}),
  R2(1, 98, {"PROF"}), R3(1, {99}, {1, 2, 11, 12, 97, 98, 99}, {"PROF"}), R4(1, 99, {3, 13, 14}, {0}, {"PROF"}), R4(1, 99, {10}, 1..3, {"PROF"}),
  R3(1, Cumulative, {134}, {"REG"}),
  R3(1, Measured, Cumulative \cup Integrals \cup {46} \cup Limits, {"REG", "EXT"}),
  R3(1, Measured, Instant, {"REG"}), R3(1, Measured, Extremes, {"REG", "EXT", "PROF"}),
  R3(1, Measured, Averages, {"REG", "DEM"}), R3(1, Measured, {40}, {"DATA", "REG"}) >>

Events == <<"voltage", "current", "commutation", "programming", "external", "communication", "access", "selfdiag", "reactive">>
Logs(pre) == [i \in 1..9 |-> R4(0, 96, {11}, {i - 1}, {pre \o Events[i]})]
RowsSpodes == RowsDlms \o <<
  R3(0, {21}, {0}, {"P.disp"}),
  R4(0, 96, {1}, {0, 2, 4, 5, 8, 9, 10}, {"D.idns"}), R4(0, 96, {1}, {6}, {"D.spodes"}), R4(0, 96, {2}, {1, 2, 3, 5, 6, 7, 11, 12}, {"D.when"}),
  R4(0, 96, {3}, {20}, {"ARB.ru"}), R4(0, 96, {5}, {1}, {"D.pq1"}), R4(0, 96, {5}, {4}, {"D.pq2"}), R4(0, 96, {5}, {132}, {"D.u8"}) >>
  \o Logs("E.") \o <<
  R5(0, {96}, 51, {0, 1, 3, 4, 6, 7}, {"D.u8"}), R5(0, {96}, 51, {5}, {"D.u8"}), R5(0, {96}, 51, {8, 9}, {"D.dt"}),
  R4(1, 0, {8}, {4, 5}, {"D.period"}), R3(1, {98}, {1}, {"P.month"}), R3(1, {98}, {2}, {"P.day"}), R3(1, {99}, {1, 2}, {"P.load"}),
  R(<<{1}, {0}, {131, 133}, {35}, {0}>>, {"REG"}), R(<<{1}, {0}, {147}, {133}, {0}>>, {"REG"}), R(<<{1}, {0}, {148}, {136}, {0}>>, {"REG"}),
  R4(1, 94, {7}, {0}, {"P.cur"}), R4(1, 94, {7}, 1..6, {"P.scal"}),
  R(<<{128}, {0}, 0..19, {0}, {0}>>, {"REG"}) >>
RowsKpz == RowsSpodes \o <<
  R5(128, {96}, 13, {1}, {"D.bmp"}), R5(128, {154}, 0, {0}, {"D.ping"}), R4(0, 0, {128}, {100, 101, 102, 103, 150, 151, 152, 170}, {"DATA"}) >>
RowsKpz1 == RowsKpz \o Logs("K.")
Specs == {"DLMS_6", "SPODES_3", "KPZ", "KPZ1"}
Rows(spec) == CASE spec = "DLMS_6" -> RowsDlms [] spec = "SPODES_3" -> RowsSpodes [] spec = "KPZ" -> RowsKpz [] OTHER -> RowsKpz1
\* the same by length of the key
ByLen == [s \in Specs |-> [l \in 2..5 |-> SelectSeq(Rows(s), LAMBDA r : Len(r.k) = l)]]

NoRow == {}
Under(spec, key) ==
  LET t == ByLen[spec][Len(key)]
      hit == {i \in DOMAIN t : \A j \in DOMAIN key : key[j] \in t[i].k[j]}
  IN IF hit = {} THEN NoRow ELSE t[CHOOSE i \in hit : \A j \in hit : j <= i].m
Manufacturer(n) == n[2] \in 128..199 \/ n[3] \in 128..199 \/ n[3] = 240 \/ n[4] \in 128..254 \/ n[5] \in 128..254 \/ n[6] \in 128..254
Or2(x, y) == IF x # NoRow THEN x ELSE y
\* kinds an object named n may be
Kinds(spec, n) ==
  LET whole == Under(spec, SubSeq(n, 1, 5))
  IN IF Manufacturer(n) THEN Or2(whole, Common)
     ELSE Or2(Under(spec, <<n[1], n[3], n[4], n[5]>>), Or2(Under(spec, <<n[1], n[3], n[4]>>), Or2(whole, Or2(Under(spec, <<n[1], n[3]>>), Common))))
Fits(k, c, v) == ClassOf(k)[1] = c /\ v \in ClassOf(k)[2]
Accepted(spec, n) == UNION {{<<ClassOf(k)[1], v>> : v \in ClassOf(k)[2]} : k \in Kinds(spec, n)}
KindOf(spec, n, c) == CHOOSE k \in Kinds(spec, n) : ClassOf(k)[1] = c

\* what tells kinds of one class apart: update of attribute 2 (0 any, 1 static, 2 dynamic), its tags, event texts, scaler profile
AllTags == {0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13} \cup 15..27
IdTags == {6, 9, 10, 12, 17, 18}
Shape(k, f) ==   \* f: update kind, tags
  CASE k \in {"DATA", "D.fw"} -> f = <<0, AllTags>> [] k = "D.stat" -> f = <<1, AllTags>> [] k = "D.dyn" -> f = <<2, AllTags>>
    [] k = "D.ldn" -> f = <<0, {9}>> [] k = "D.id" -> f = <<1, IdTags>> [] k = "D.idns" -> f = <<0, IdTags>> [] k = "D.spodes" -> f = <<1, {9}>>
    [] k = "D.port" -> f = <<2, {17}>> [] k = "D.when" -> f = <<2, {9, 25, 26, 27}>> [] k \in {"D.pq1", "D.pq2"} -> f = <<0, {18}>>
    [] k = "D.u8" -> f = <<2, {17}>> [] k = "D.dt" -> f = <<2, {9}>> [] k = "D.period" -> f = <<1, {17}>>
    [] k = "D.bmp" -> f = <<0, {2}>> [] k = "D.ping" -> f = <<1, {2}>>
    [] k \in {"E." \o Events[i] : i \in 1..9} -> f = <<2, {18}>> [] k \in {"K." \o Events[i] : i \in 1..9} -> f = <<1, {6}>>
    [] OTHER -> TRUE
Log(k) == IF k = "D.pq1" THEN "quality1" ELSE IF k = "D.pq2" THEN "quality2"
          ELSE IF \E i \in 1..9 : k \in {"E." \o Events[i], "K." \o Events[i]} THEN Events[CHOOSE i \in 1..9 : k \in {"E." \o Events[i], "K." \o Events[i]}] ELSE ""
Scaler(k) == CASE k = "P.cur" -> <<1, 0, 94, 7, 3, 255>> [] k = "P.month" -> <<1, 0, 94, 7, 1, 255>> [] k = "P.day" -> <<1, 0, 94, 7, 2, 255>>
               [] k = "P.load" -> <<1, 0, 94, 7, 4, 255>> [] OTHER -> <<>>

\* specification in use: cfg.ru: Russia, cver: its version, man: manufacturer, sver: version of the server, <<>>: not known
Before(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ (v[2] < w[2] \/ (v[2] = w[2] /\ v[3] < w[3])))
SpecOf(cfg) == IF ~cfg.ru THEN "DLMS_6"
               ELSE IF cfg.man = <<75, 80, 90>> THEN (IF cfg.sver # <<>> /\ Before(cfg.sver, <<1, 3, 30>>) THEN "KPZ1" ELSE "KPZ")
               ELSE IF cfg.cver = <<3, 0>> THEN "SPODES_3" ELSE "DLMS_6"
=============================================================================

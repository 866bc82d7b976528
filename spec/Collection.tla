------------------------------ MODULE Collection ----------------------------
(* Objects of one logical device: a map from names to objects that keeps the *)
(* order in which names came, and the identification of the device.          *)
(* Object: [n, c, v, id] (name, class, version, which object); versions of   *)
(* firmware: <<major, minor>> or <<major, minor, patch>>.                    *)
EXTENDS Obis

LDN == <<0, 0, 42, 0, 0, 255>>
Russia == 7
New == [objs |-> <<[n |-> LDN, c |-> 1, v |-> 0, id |-> 1]>>, nid |-> 2, spec |-> "DLMS_6",
        dlms |-> 6, man |-> <<>>, country |-> Russia, cver |-> <<>>, stype |-> <<>>, sver |-> {}, colver |-> <<>>]
Refuse(c, e) == [c |-> c, e |-> e, id |-> 0]
Done(c, id) == [c |-> c, e |-> "", id |-> id]

Place(c, n) == {i \in DOMAIN c.objs : c.objs[i].n = n}
Has(c, n) == Place(c, n) # {}
At(c, n) == c.objs[CHOOSE i \in DOMAIN c.objs : c.objs[i].n = n]
IdOf(c, n) == IF Has(c, n) THEN At(c, n).id ELSE 0
OfClass(c, k) == SelectSeq(c.objs, LAMBDA x : x.c = k)
Put(c, o) == IF Has(c, o.n) THEN [i \in DOMAIN c.objs |-> IF c.objs[i].n = o.n THEN o ELSE c.objs[i]] ELSE Append(c.objs, o)
\* v = -1: the version the class has in the collection already
Add(c, k, v, n) ==
  LET w == IF v >= 0 THEN v ELSE IF OfClass(c, k) = <<>> THEN -1 ELSE OfClass(c, k)[1].v
  IN IF <<k, w>> \notin Accepted(c.spec, n) THEN Refuse(c, "ValueError")
     ELSE Done([c EXCEPT !.objs = Put(c, [n |-> n, c |-> k, v |-> w, id |-> c.nid]), !.nid = @ + 1], c.nid)
AddMissing(c, k, v, n) == IF Has(c, n) THEN Done(c, IdOf(c, n)) ELSE Add(c, k, v, n)
\* the name of the device stays
Remove(c, n) == IF Has(c, n) /\ n # LDN THEN [c EXCEPT !.objs = SelectSeq(@, LAMBDA x : x.n # n)] ELSE c

\* class -> version, refused if there are several
Classes(c) == {c.objs[i].c : i \in DOMAIN c.objs}
Mixed(c) == \E i, j \in DOMAIN c.objs : c.objs[i].c = c.objs[j].c /\ c.objs[i].v # c.objs[j].v
\* 0: no electricity object
Phases(c) == LET el == SelectSeq(c.objs, LAMBDA x : x.n[1] = 1)
             IN IF el = <<>> THEN 0 ELSE IF \E i \in DOMAIN el : el[i].n[3] \in 41..60 THEN 3 ELSE 1

\* identification: written once, afterwards only confirmed
Ge(x, y) == IF x[1] # y[1] THEN x[1] > y[1] ELSE IF x[2] # y[2] THEN x[2] > y[2] ELSE Len(x) < 3 \/ Len(y) < 3 \/ x[3] >= y[3]
Gt(x, y) == IF x[1] # y[1] THEN x[1] > y[1] ELSE IF x[2] # y[2] THEN x[2] > y[2] ELSE Len(x) = 3 /\ Len(y) = 3 /\ x[3] > y[3]
Once(c, f, none, x) == IF c[f] = none THEN Done([c EXCEPT ![f] = x], 0) ELSE IF c[f] = x THEN Done(c, 0) ELSE Refuse(c, "ValueError")
ServerType(c, x, force) == IF force THEN Done([c EXCEPT !.stype = x], 0) ELSE Once(c, "stype", <<>>, x)
Known(c, i) == {p \in c.sver : p[1] = i}
SetVer(c, i, x) == Done([c EXCEPT !.sver = (@ \ Known(c, i)) \cup {<<i, x>>}], 0)
\* a known version takes another patch of it that is not newer, and stays what it is
ServerVer(c, i, x, force) ==
  IF force \/ Known(c, i) = {} THEN SetVer(c, i, x)
  ELSE LET y == (CHOOSE p \in Known(c, i) : TRUE)[2]
       IN IF x[1] = y[1] /\ x[2] = y[2] /\ Ge(y, x) THEN Done(c, 0) ELSE Refuse(c, "ValueError")
SetSpec(c) == LET s == {p[2] : p \in Known(c, 0)}
              IN Done([c EXCEPT !.spec = IF c.country # Russia THEN c.spec
                       ELSE IF c.man = <<75, 80, 90>> THEN (IF s # {} /\ Gt(<<1, 3, 30>>, CHOOSE x \in s : TRUE) THEN "KPZ1" ELSE "KPZ")
                       ELSE IF c.cver = <<3, 0>> THEN "SPODES_3" ELSE "DLMS_6"], 0)

\* shortcuts
Short ==
  [LDN |-> LDN, current_association |-> <<0, 0, 40, 0, 0, 255>>, PUBLIC_ASSOCIATION |-> <<0, 0, 40, 0, 1, 255>>,
   COMMUNICATION_PORT_PARAMETER |-> <<0, 0, 96, 12, 4, 255>>, clock |-> <<0, 0, 1, 0, 0, 255>>, activity_calendar |-> <<0, 0, 13, 0, 0, 255>>,
   special_day_table |-> <<0, 0, 11, 0, 0, 255>>, TCP_UDP_setup |-> <<0, 0, 25, 0, 0, 255>>, IPv4_setup |-> <<0, 0, 25, 1, 0, 255>>,
   boot_image_transfer |-> <<0, 0, 44, 0, 128, 255>>, firmware_image_transfer |-> <<0, 0, 44, 0, 0, 255>>,
   RU_EXTENDED_PASSPORT_DATA |-> <<0, 0, 94, 7, 1, 255>>, firmware_version |-> <<0, 0, 96, 1, 2, 255>>, device_type |-> <<0, 0, 96, 1, 1, 255>>,
   manufacturing_date |-> <<0, 0, 96, 1, 4, 255>>, RU_LOAD_LOCK_STATUS |-> <<0, 0, 96, 4, 3, 255>>, firmwares_description |-> <<0, 0, 128, 100, 0, 255>>,
   serial_number |-> <<0, 0, 96, 1, 0, 255>>, RU_MAGNETIC_EFFECT |-> <<0, 0, 96, 51, 3, 255>>, RU_HF_FIELD_EFFECT |-> <<0, 0, 96, 51, 4, 255>>,
   RU_ELECTRIC_SEAL_STATUS |-> <<0, 0, 96, 51, 5, 255>>, RU_CLOSE_ELECTRIC_SEAL |-> <<0, 0, 96, 51, 6, 255>>,
   RU_ERASE_MAGNETIC_EVENTS |-> <<0, 0, 96, 51, 7, 255>>, RU_ALARM_REGISTER_2 |-> <<0, 0, 97, 98, 1, 255>>, RU_FILTER_ALARM_2 |-> <<0, 0, 97, 98, 11, 255>>,
   RU_DAILY_PROFILE |-> <<1, 0, 98, 2, 0, 255>>, RU_MAXIMUM_CURRENT_EXCESS_LIMIT |-> <<1, 0, 11, 134, 0, 255>>,
   RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT |-> <<1, 0, 12, 134, 0, 255>>]
\* shortcuts with a channel or instance k
ShortOf(s, k) == CASE s = "getASSOCIATION" -> <<0, 0, 40, 0, k, 255>> [] s = "getIECHDLCSetup" -> <<0, k, 22, 0, 0, 255>>
                   [] s = "getIPv4Setup" -> <<0, k, 25, 1, 0, 255>> [] s = "getDISCONNECT_CONTROL" -> <<0, k, 96, 3, 10, 255>>
                   [] OTHER -> <<0, k, 96, 3, 20, 255>>
=============================================================================

------------------------------- MODULE Library -------------------------------
(* The library of device types: a tree of files (maker / type / version), the *)
(* file found for a device, the collection a file makes (format 3: objects   *)
(* with class and version; format 4: associations, whose lists bring the     *)
(* objects), the file made of a collection, and copies of a collection.      *)
(* Collection: [c, obs]: the map of names of module Collection, and in the   *)
(* same order the objects with their values.                                 *)
EXTENDS Typed
Col == INSTANCE Collection
Vs == INSTANCE Versions

\* ---- the tree: mans: names of directories; types: <<maker, name>> of directories; files: <<maker, type, name>>
TypSuffix == <<46, 116, 121, 112>>
IsTyp(f) == Len(f) > 4 /\ SubSeq(f, Len(f) - 3, Len(f)) = TypSuffix
HexDigit(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE x - 55
HexOctets(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexDigit(s[2 * i - 1]) + HexDigit(s[2 * i])]
Makers(tree) == {m \in {tree.mans[i] : i \in DOMAIN tree.mans} : Len(m) = 3}
TypesOf(tree, m) == {HexOctets(tree.types[i][2]) : i \in {i \in DOMAIN tree.types : tree.types[i][1] = m}}
FilesOf(tree, m, t) == {tree.files[i][3] : i \in {i \in DOMAIN tree.files : tree.files[i][1] = m /\ HexOctets(tree.files[i][2]) = t /\ IsTyp(tree.files[i][3])}}
VersionOf(f) == Vs!Parse(SubSeq(f, 1, Len(f) - 4))
Held(tree) == {<<m, t, VersionOf(f), f>> : <<m, t, f>> \in UNION {UNION {{<<m, t, f>> : f \in FilesOf(tree, m, t)} : t \in TypesOf(tree, m)} : m \in Makers(tree)}}
\* files of the library that suit a device; none: the device is not supported
Suiting(tree, m, t, v) ==
  IF m \notin Makers(tree) \/ t \notin TypesOf(tree, m) THEN {}
  ELSE LET all == FilesOf(tree, m, t) exact == {f \in all : VersionOf(f) = v}
           below == {f \in all : Vs!SameBranch(v, VersionOf(f)) /\ Vs!NotEarlier(v, VersionOf(f))}
       IN IF exact # {} THEN exact ELSE {f \in below : \A g \in below : ~Vs!Later(VersionOf(g), VersionOf(f))}

\* ---- collections with values
\* the schema of a kind (module Obis) and version
SchemaOf(k, v) ==
  CASE k = "ACTIV" -> "register_activation.ver0:RegisterActivation" [] k = "ARB" -> "arbitrator:Arbitrator" [] k = "ARB.ru" -> "implementations.arbitrator:SPODES3Arbitrator"
    [] k = "CAL" -> "activity_calendar:ActivityCalendar" [] k = "CLOCK" -> "clock:Clock" [] k = "D.bmp" -> "implementations.data:ITEBitMap"
    [] k = "D.dt" -> "implementations.data:OctetStringDateTime" [] k = "D.dyn" -> "implementations.data:DataDynamic" [] k = "D.fw" -> "implementations.data:ActiveFirmwareId"
    [] k = "D.id" -> "implementations.data:DLMSDeviceIDObject" [] k = "D.idns" -> "implementations.data:SPODES3IDNotSpecific" [] k = "D.ldn" -> "implementations.data:LDN"
    [] k = "D.period" -> "implementations.data:SPODES3MeasurementPeriod" [] k = "D.ping" -> "implementations.data:KPZGSMPingIP"
    [] k = "D.port" -> "implementations.data:CommunicationPortParameter" [] k = "D.pq1" -> "implementations.data:SPODES3PowerQuality1Event"
    [] k = "D.pq2" -> "implementations.data:SPODES3PowerQuality2Event" [] k = "D.spodes" -> "implementations.data:SPODES3SPODESVersion"
    [] k = "D.stat" -> "implementations.data:DataStatic" [] k = "D.u8" -> "implementations.data:Unsigned" [] k = "D.when" -> "implementations.data:AnyDateTime"
    [] k = "DEM" -> "demand_register.ver0:DemandRegister" [] k = "DISC" -> "disconnect_control:DisconnectControl"
    [] k = "E.access" -> "implementations.data:SPODES3AccessEvent" [] k = "E.communication" -> "implementations.data:SPODES3CommunicationEvent"
    [] k = "E.commutation" -> "implementations.data:SPODES3CommutationEvent" [] k = "E.current" -> "implementations.data:SPODES3CurrentEvent"
    [] k = "E.external" -> "implementations.data:SPODES3ExternalEvent" [] k = "E.programming" -> "implementations.data:SPODES3ProgrammingEvent"
    [] k = "E.reactive" -> "implementations.data:SPODES3ReactivePowerEvent" [] k = "E.selfdiag" -> "implementations.data:SPODES3SelfDiagnosticEvent"
    [] k = "E.voltage" -> "implementations.data:SPODES3VoltageEvent" [] k = "EXT" -> "extended_register:ExtendedRegister" [] k = "GPRS" -> "gprs_modem_setup:GPRSModemSetup"
    [] k = "HDLC" -> "iec_hdlc_setup.ver1:IECHDLCSetup" [] k = "IMG" -> "image_transfer.ver0:ImageTransfer" [] k = "IP4" -> "ipv4_setup:IPv4Setup"
    [] k = "K.access" -> "implementations.data:KPZ1SPODES3AccessEvent" [] k = "K.communication" -> "implementations.data:KPZ1SPODES3CommunicationEvent"
    [] k = "K.commutation" -> "implementations.data:KPZ1SPODES3CommutationEvent" [] k = "K.current" -> "implementations.data:KPZ1SPODES3CurrentEvent"
    [] k = "K.external" -> "implementations.data:KPZ1SPODES3ExternalEvent" [] k = "K.programming" -> "implementations.data:KPZ1SPODES3ProgrammingEvent"
    [] k = "K.reactive" -> "implementations.data:KPZ1SPODES3ReactivePowerEvent" [] k = "K.selfdiag" -> "implementations.data:KPZ1SPODES3SelfDiagnosticEvent"
    [] k = "K.voltage" -> "implementations.data:KPZ1SPODES3VoltageEvent" [] k = "LIM" -> "limiter:Limiter" [] k = "MON" -> "register_monitor:RegisterMonitor"
    [] k = "NTP" -> "ntp_setup.ver0:NTPSetup" [] k = "P.cur" -> "implementations.profile_generic:SPODES3CurrentProfile"
    [] k = "P.day" -> "implementations.profile_generic:SPODES3DailyProfile" [] k = "P.disp" -> "implementations.profile_generic:SPODES3DisplayReadout"
    [] k = "P.load" -> "implementations.profile_generic:SPODES3LoadProfile" [] k = "P.month" -> "implementations.profile_generic:SPODES3MonthProfile"
    [] k = "P.scal" -> "implementations.profile_generic:SPODES3ScalesProfile" [] k = "PROF" -> "profile_generic.ver1:ProfileGeneric"
    [] k = "PUSH" -> "push_setup.ver2:PushSetup" [] k = "REG" -> "register:Register" [] k = "SCHED" -> "schedule:Schedule" [] k = "SCRIPT" -> "script_table:ScriptTable"
    [] k = "SINGLE" -> "single_action_schedule:SingleActionSchedule" [] k = "SPEC" -> "special_days_table:SpecialDaysTable" [] k = "TCP" -> "tcp_udp_setup:TCPUDPSetup"
    [] k = "ASS" /\ v = 0 -> "association_ln.ver0:AssociationLN" [] k = "ASS" /\ v = 1 -> "association_ln.ver1:AssociationLN"
    [] k = "ASS" /\ v = 2 -> "association_ln.ver2:AssociationLN" [] k = "GSM" /\ v = 0 -> "gsm_diagnostic.ver0:GSMDiagnostic"
    [] k = "GSM" /\ v = 1 -> "gsm_diagnostic.ver1:GSMDiagnostic" [] k = "MODEM" /\ v = 0 -> "modem_configuration.ver0:PSTNModemConfiguration"
    [] k = "MODEM" /\ v = 1 -> "modem_configuration.ver1:ModemConfigurationVer1" [] k = "SEC" /\ v = 0 -> "security_setup.ver0:SecuritySetup"
    [] k = "SEC" /\ v = 1 -> "security_setup.ver1:SecuritySetup"
    [] OTHER -> "data:Data"
\* an object whose only difference is the text of its values
Alike == {"implementations.data:Unsigned", "implementations.data:OpeningBody", "implementations.data:SealStatus", "implementations.data:TerminalsCoverOpeningState"}
SchemaFor(spec, o) == SchemaOf(Col!KindOf(spec, o.n, o.c), o.v)
NumberOfSchema == [k \in {Cls(c).key : c \in 1..ClassCount} |-> CHOOSE c \in 1..ClassCount : Cls(c).key = k]
\* (the sequences are made by joining, which has TLC work them out once)
\* an association comes with the addresses of its clients: 16 for each step of its place
Partner(n) == IF n[5] <= 4 THEN 16 * n[5] ELSE 16
NewOne(c, n) ==
  LET o == NewObj(c, n) a == <<>> \o o.a
  IN [c |-> c, m |-> <<>>, rt |-> <<>>, a |-> IF Cls(c).id = 15 THEN [a EXCEPT ![3] = Put(Attrs(c)[3].t, Fresh, <<2, 2, 15, Partner(n), 18, 0, 1>>)] ELSE a]
Filled(q, c) == [c |-> c, obs |-> q.obs \o [i \in 1..(Len(c.objs) - Len(q.obs)) |-> LET o == c.objs[Len(q.obs) + i] IN NewOne(NumberOfSchema[SchemaFor(c.spec, o)], o.n)]]
At(q, n) == CHOOSE i \in DOMAIN q.c.objs : q.c.objs[i].n = n
ClassOf(q, k) == q.c.objs[k].c
\* an association's list: [n, c, v, as (<<attribute, mode>>)]
ListOf(x) == [i \in DOMAIN x.v |-> LET e == x.v[i] IN
  [c |-> NumberOf(e.v[1]), v |-> NumberOf(e.v[2]), n |-> e.v[3].c, as |-> LET a == e.v[4].v[1].v IN [j \in DOMAIN a |-> <<NumberOf(a[j].v[1]), NumberOf(a[j].v[2])>>]]]
HasList(q, k) == ClassOf(q, k) = 15 /\ q.obs[k].a[2].on
ObjList(q, k) == ListOf(q.obs[k].a[2].x)
RECURSIVE Bring(_, _)
\* objects of a list that are missing come in its order
Bring(c, s) == IF s = <<>> THEN c ELSE Bring(Col!AddMissing(c, s[1].c, s[1].v, s[1].n).c, SubSeq(s, 2, Len(s)))
\* a value for an attribute of the k-th object: taken or not; the first list of an association brings its objects
SetOf(q, k, i, s) ==
  LET r == SetAttr(q.obs[k], i, s) n == [q EXCEPT !.obs[k] = r.o]
  IN IF r.e # "" THEN q
     ELSE IF ClassOf(q, k) = 15 /\ i = 2 /\ ~q.obs[k].a[2].on THEN Filled(n, Bring(q.c, ObjList(n, k))) ELSE n
\* only the type of an attribute of choice is known: its ordinary value, if it has none yet
Arms(T) == {T.sub[i].t : i \in {i \in DOMAIN T.sub : T.sub[i].k \in {"leaf", "anyarray"}}}
Ordinary(t) == CASE t = 25 -> <<25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>> [] t = 26 -> <<26, 7, 228, 1, 1, 3>> [] t = 1 -> <<1, 0>> [] OTHER -> Nil(t)
TypeOnly(q, k, i, t) ==
  IF i \notin 2..Len(q.obs[k].a) THEN q
  ELSE LET T == AType(q.obs[k], i) IN
       IF T.k = "choice" /\ ~q.obs[k].a[i].on THEN (IF t \in Arms(T) THEN [q EXCEPT !.obs[k].a[i] = Put(T, Fresh, Ordinary(t))] ELSE q) ELSE q

\* ---- a file: [root, fmt, h, nodes]; h: [dlms, country, cver, man, stype, sver]; node: [n (<<>>: not a name), c, v (-1: absent), attrs]
\* attribute: [i, w ("hex", "tag", "junk"), s]
NoCollection == [c |-> Col!New, obs |-> <<>>]
Headed(h) ==
  IF h.dlms # 6 \/ h.country # Col!Russia THEN [ok |-> FALSE, c |-> Col!New]
  ELSE [ok |-> TRUE, c |-> Col!SetSpec([Col!New EXCEPT !.man = h.man, !.cver = h.cver, !.stype = h.stype, !.colver = IF h.sver = <<>> THEN <<>> ELSE h.sver[1][2]]).c]
RECURSIVE Attrs3(_, _, _, _), Nodes3(_, _, _), Nodes4(_, _, _)
\* values one after the other; left: those that could not be taken
Attrs3(q, k, s, left) ==
  IF s = <<>> THEN [q |-> q, left |-> left]
  ELSE LET a == s[1] rest == SubSeq(s, 2, Len(s))
       IN CASE a.w = "hex" -> Attrs3(SetOf(q, k, a.i, a.s), k, rest, IF SetAttr(q.obs[k], a.i, a.s).e = "" THEN left ELSE Append(left, a))
            [] a.w = "tag" -> Attrs3(TypeOnly(q, k, a.i, a.s[1]), k, rest, left)
            [] OTHER -> Attrs3(q, k, rest, left)
\* format 3: an object that cannot be made is left out, a value that cannot be taken too; without a version it is of the one its class has here
VersionIn(c, k) == LET of == SelectSeq(c.objs, LAMBDA o : o.c = k) IN IF of = <<>> THEN -1 ELSE of[1].v
Object3(q, nd) ==
  IF nd.n = <<>> \/ nd.c < 0 THEN [q |-> q, left |-> nd.attrs]
  ELSE LET v == IF nd.v < 0 THEN VersionIn(q.c, nd.c) ELSE nd.v
           c == IF v < 0 /\ ~Col!Has(q.c, nd.n) THEN [c |-> q.c, e |-> "ValueError"] ELSE LET x == Col!AddMissing(q.c, nd.c, v, nd.n) IN [c |-> x.c, e |-> x.e]
       IN IF c.e # "" THEN [q |-> q, left |-> nd.attrs] ELSE LET n == Filled(q, c.c) IN Attrs3(n, At(n, nd.n), nd.attrs, <<>>)
Nodes3(q, s, left) ==
  IF s = <<>> THEN [q |-> q, left |-> left]
  ELSE LET r == Object3(q, s[1]) IN Nodes3(r.q, SubSeq(s, 2, Len(s)), Append(left, [s[1] EXCEPT !.attrs = r.left]))
\* what was left is tried again, three times in all
Thrice(Go(_, _, _), q, s) == LET a == Go(q, s, <<>>) b == Go(a.q, a.left, <<>>) IN Go(b.q, b.left, <<>>).q
Current == <<0, 0, 40, 0, 0, 255>>
\* format 4: a node with a version is an association and comes with the current one; another one is known from the lists
Object4(q, nd) ==
  IF nd.v < 0 THEN (IF Col!Has(q.c, nd.n) THEN Attrs3(q, At(q, nd.n), nd.attrs, <<>>) ELSE [q |-> q, left |-> nd.attrs])
  ELSE LET c == Col!AddMissing(Col!AddMissing(q.c, 15, nd.v, nd.n).c, 15, nd.v, Current).c n == Filled(q, c) IN Attrs3(n, At(n, nd.n), nd.attrs, <<>>)
Nodes4(q, s, left) ==
  IF s = <<>> THEN [q |-> q, left |-> left]
  ELSE LET r == Object4(q, s[1]) IN Nodes4(r.q, SubSeq(s, 2, Len(s)), Append(left, [s[1] EXCEPT !.attrs = r.left]))
\* objects a node of format 4 speaks of are there by then
RECURSIVE Connected(_, _)
Connected(q, s) == IF s = <<>> THEN TRUE ELSE IF s[1].v < 0 /\ ~Col!Has(q.c, s[1].n) THEN FALSE ELSE Connected(Object4(q, s[1]).q, SubSeq(s, 2, Len(s)))
LoadOf(doc) ==
  LET h == Headed(doc.h) q == Filled(NoCollection, h.c)
  IN IF doc.root # "Objects" \/ ~h.ok THEN [e |-> "ValueError", q |-> NoCollection]
     ELSE IF doc.fmt \notin {<<3, 0>>, <<3, 1>>, <<3, 2>>, <<4, 0>>} THEN [e |-> "VersionError", q |-> NoCollection]
     ELSE IF doc.fmt[1] = 3 THEN [e |-> "", q |-> Thrice(Nodes3, q, doc.nodes)]
     ELSE IF ~Connected(q, doc.nodes) THEN [e |-> "NoObject", q |-> NoCollection]
     ELSE [e |-> "", q |-> Thrice(Nodes4, q, doc.nodes)]

\* ---- the file of a collection: what the lists of the associations show
Apart == {<<0, 0, 40, 0, 0, 255>>, <<0, 0, 42, 0, 0, 255>>}
Writable(m) == m \in {2, 3, 5, 6}
Readable(m) == m \in {1, 3, 4, 6}
Asses(q) == SelectSeq([k \in DOMAIN q.obs |-> k], LAMBDA k : ClassOf(q, k) = 15 /\ q.c.objs[k].n[5] # 0)
Listed(q) == Cat([j \in DOMAIN Asses(q) |-> SelectSeq(ObjList(q, Asses(q)[j]), LAMBDA e : e.n \notin Apart)])
FirstNames(s) == LET new == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : \A j \in 1..(i - 1) : s[j].n # s[i].n) IN [k \in DOMAIN new |-> s[new[k]].n]
\* attributes some association can read and not write (the first of a list is the name)
ReadOnlyIn(l, n) == UNION {{e.as[j][1] : j \in {j \in DOMAIN e.as : j > 1 /\ ~Writable(e.as[j][2]) /\ Readable(e.as[j][2])}} :
                           e \in {l[i] : i \in {i \in DOMAIN l : l[i].n = n}}}
ReadOnly(q, n) == ReadOnlyIn(Listed(q), n)
SavedAttr(q, k, i, ro) ==
  LET a == Attrs(q.obs[k].c)[i] c == q.obs[k].a[i]
  IN IF ~c.on THEN <<>>
     ELSE IF a.c = 1 /\ (i \in ro \/ (Cls(q.obs[k].c).key = "implementations.profile_generic:SPODES3DisplayReadout" /\ i = 3)) THEN <<[i |-> i, w |-> "hex", s |-> Octets(c)]>>
     ELSE IF a.t.k = "choice" THEN <<[i |-> i, w |-> "tag", s |-> <<c.x.t>>]>>
     ELSE <<>>
NodeOf(q, l, n) ==
  LET k == At(q, n) ro == ReadOnlyIn(l, n)
  IN [n |-> n, c |-> -1, v |-> IF ClassOf(q, k) = 15 THEN q.c.objs[k].v ELSE -1, attrs |-> Cat([i \in 1..(Len(q.obs[k].a) - 1) |-> SavedAttr(q, k, i + 1, ro)])]
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
NodesOf(q) ==
  LET l == Listed(q)
      names == FirstNames(l)
      as == Reverse2(SelectSeq(names, LAMBDA n : ClassOf(q, At(q, n)) = 15))
      rest == SelectSeq(names, LAMBDA n : ClassOf(q, At(q, n)) # 15)
      nodes == [i \in 1..Len(names) |-> NodeOf(q, l, (as \o rest)[i])]
  IN SelectSeq(nodes, LAMBDA nd : nd.v >= 0 \/ nd.attrs # <<>>)
FileOf(q) == [root |-> "Objects", fmt |-> <<4, 0>>, nodes |-> NodesOf(q),
              h |-> [dlms |-> q.c.dlms, country |-> q.c.country, cver |-> q.c.cver, man |-> q.c.man, stype |-> q.c.stype, sver |-> <<>>]]
Savable(q) == /\ \A j \in DOMAIN Asses(q) : HasList(q, Asses(q)[j])
              /\ LET l == Listed(q) IN \A i \in DOMAIN l : Col!Has(q.c, l[i].n)

\* ---- a copy: the same objects; those of the longest list with their values, but what the meter changes itself
FullestOf(q) ==
  LET s == SelectSeq([k \in DOMAIN q.obs |-> k], LAMBDA k : HasList(q, k))
      n == [j \in DOMAIN s |-> Len(q.obs[s[j]].a[2].x.v)]
  IN s[CHOOSE i \in DOMAIN s : (\A j \in DOMAIN s : n[j] <= n[i]) /\ (\A j \in 1..(i - 1) : n[j] < n[i])]
Copied(o) == LET z == NewOne(o.c, o.a[1].x.c)
             IN [z EXCEPT !.a = [i \in DOMAIN o.a |-> IF i > 1 /\ o.a[i].on /\ (Attrs(o.c)[i].c # 2 \/ Attrs(o.c)[i].t.k = "choice") THEN o.a[i] ELSE z.a[i]]]
CopyOf(q) ==
  LET l == ObjList(q, FullestOf(q)) names == {l[i].n : i \in DOMAIN l}
  IN [c |-> Col!SetSpec([q.c EXCEPT !.spec = "DLMS_6", !.stype = <<>>, !.sver = {}]).c,
      obs |-> [k \in DOMAIN q.obs |-> IF q.c.objs[k].n \in names THEN Copied(q.obs[k]) ELSE NewOne(q.obs[k].c, q.c.objs[k].n)]]
Copyable(q) == (\E k \in DOMAIN q.obs : HasList(q, k)) /\ LET l == ObjList(q, FullestOf(q)) IN \A i \in DOMAIN l : Col!Has(q.c, l[i].n)
=============================================================================

----------------------------- MODULE T_Readouts -----------------------------
(* Records of texts shown for values, reports, and values entered.           *)
EXTENDS Readouts, TraceBase

Start == [tab |-> <<>>, cs |-> <<>>, is |-> <<>>, names |-> <<>>, port |-> -1, period |-> -1, spec |-> <<>>, sap |-> -1, addr |-> <<>>, vers |-> <<<<>>, <<>>>>]
Shown(s, ok) == [st |-> s, why |-> Clause("text", ok)]
\* a value is taken or refused with an error; then the old one stays
Entered(s, ok, new, o) == [st |-> IF ok THEN new ELSE s,
                           why |-> Clause(IF ok THEN "good-refused" ELSE "bad-accepted", (o.e = "") = ok) \cup Clause("error-kind", o.e \in {"", "ValueError"})]
Also(v, cs) == [v EXCEPT !.why = @ \cup cs]
PortShown(b, s, o) == Clause("port-number", o.n = b) \cup Clause("port-channel", o.c = Channel(b)) \cup Clause("port-interface", o.i = Interface(b))
                      \cup Clause("port-text", o.t = PortText(b, s.cs, s.is))
PortNow(s, b, o) == [st |-> [s EXCEPT !.port = b], why |-> Clause("port-refused", o.e = "") \cup PortShown(b, s, o)]
JudgeReadouts(s, e) ==
  CASE e.ev = "words" -> Ok([s EXCEPT !.tab = e.tab, !.cs = e.cs, !.is = e.is])
    [] e.ev = "names" -> Ok([s EXCEPT !.names = e.tab])
    [] e.ev = "message" -> IF Closed(e.s) THEN Shown(s, e.o.e = "" /\ e.o.t = Message(s.tab, e.s)) ELSE Ok(s)
    [] e.ev = "seal" -> Shown(s, e.o.e = "" /\ e.o.t = Message(s.tab, SealTemplate(e.b)))
    [] e.ev = "signal" -> Shown(s, e.o.e = "" /\ e.o.t = Message(s.tab, SignalTemplate(e.b)))
    [] e.ev = "event" -> Shown(s, e.o.e = "" /\ e.o.t = EventText(s.names, e.n))
    [] e.ev = "flags" -> Shown(s, e.o.e = "" /\ e.o.t = FlagsText(s.names, e.n))
    [] e.ev = "port" -> PortNow(s, e.b, e.o)
    [] e.ev = "channel" -> PortNow(s, WithChannel(s.port, e.c), e.o)
    [] e.ev = "interface" -> PortNow(s, WithInterface(s.port, e.i), e.o)
    [] e.ev = "period" -> LET r == Entered(s, PeriodOk(e.n), [s EXCEPT !.period = e.n], e.o) IN Also(r, Clause("kept", e.o.v = r.st.period))
    [] e.ev = "sap" -> LET r == Entered(s, SapOk(e.n), [s EXCEPT !.sap = e.n], e.o) IN Also(r, Clause("kept", e.o.v = r.st.sap))
    [] e.ev = "spec" -> LET r == Entered(s, SpecVersionOk(e.v), [s EXCEPT !.spec = e.v], e.o) IN Also(r, Clause("kept", e.o.v = r.st.spec))
    [] e.ev = "address" -> LET p == Address(e.s)
                               r == Entered(s, p.ok, [s EXCEPT !.addr = p.a], e.o)
                           IN Also(r, Clause("kept", e.o.a = r.st.addr) \cup Clause("address-text", r.st.addr # <<>> => e.o.t = AddressText(r.st.addr)))
    [] e.ev = "server" -> LET p == ServerSet(s.vers[e.g], e.v, e.f)
                              t == [s EXCEPT !.vers[e.g] = p.v]
                          IN [st |-> t, why |-> Clause("server-version", (e.o.e = "") = p.ok) \cup Clause("kept", e.o.vers = t.vers) \cup Clause("error-kind", e.o.e \in {"", "ValueError"})]
    [] e.ev = "firmware" -> [st |-> s, why |-> Clause("newer", (e.o.e = "NeedUpdate") = (s.vers[e.g] # <<>> /\ Newer(e.v, s.vers[e.g]))) \cup Clause("error-kind", e.o.e \in {"", "NeedUpdate"})]
    [] e.ev = "report" -> [st |-> s, why |-> Clause("report", e.o.e = "" /\ e.o.t \in ReportOf(e.n, e.vs))]
=============================================================================

---------------------------- MODULE MC_Readouts -----------------------------
(* A port whose channel and interface are chosen one at a time, and values   *)
(* entered again and again; the laws of messages, addresses and flags.       *)
EXTENDS Readouts, Json, TLC
CONSTANTS Steps, Letters, Bytes3
VARIABLES port, period, addr, hist
vars == <<port, period, addr, hist>>
view == <<port, period, addr, Len(hist)>>
Log(x) == hist' = Append(hist, x)
Texts == {<<>>, <<49>>, <<49, 46, 50>>, <<49, 46, 50, 46, 51, 46, 52>>, <<50, 53, 53, 46, 46, 48, 48, 55>>, <<50, 53, 54>>, <<49, 46, 50, 46, 51, 46, 52, 46, 53>>, <<120>>,
          <<49, 57, 50, 46, 49, 54, 56, 46, 48, 46, 49>>}
Init == port \in {0, 74, 255} /\ period = 30 /\ addr = <<0, 0, 0, 0>> /\ hist = <<[ev |-> "port", n |-> port, s |-> <<>>]>>
ChooseChannel == \E c \in 0..7 : port' = WithChannel(port, c) /\ Log([ev |-> "channel", n |-> c, s |-> <<>>]) /\ UNCHANGED <<period, addr>>
ChooseInterface == \E i \in 0..31 : port' = WithInterface(port, i) /\ Log([ev |-> "interface", n |-> i, s |-> <<>>]) /\ UNCHANGED <<period, addr>>
EnterPeriod == \E n \in {0, 1, 4, 15, 60, 61, 120} : period' = (IF PeriodOk(n) THEN n ELSE period) /\ Log([ev |-> "period", n |-> n, s |-> <<>>]) /\ UNCHANGED <<port, addr>>
EnterAddress == \E t \in Texts : LET p == Address(t) IN addr' = (IF p.ok THEN p.a ELSE addr) /\ Log([ev |-> "address", n |-> 0, s |-> t]) /\ UNCHANGED <<port, period>>
Next == Len(hist) <= Steps /\ (ChooseChannel \/ ChooseInterface \/ EnterPeriod \/ EnterAddress)
Spec == Init /\ [][Next]_vars

InByte == port \in 0..255 /\ Interface(port) \in 0..31
\* choosing one leaves the other, and is what is read next
Apart == \A c \in 0..7 : \A i \in 0..31 : LET x == WithInterface(WithChannel(port, c), i)
                                          IN x = WithChannel(WithInterface(port, i), c) /\ Channel(x) = c /\ Interface(x) = i
PeriodGood == PeriodOk(period)
AddressReads == Address(AddressText(addr)) = [ok |-> TRUE, a |-> addr]

Tab == <<[k |-> <<97>>, t |-> <<120, 121>>], [k |-> <<97, 98>>, t |-> <<36>>], [k |-> <<98>>, t |-> <<>>]>>
Strs == UNION {[1..n -> {36, 97, 98}] : n \in 0..Letters}
NoDollar(s) == \A i \in DOMAIN s : s[i] # 36
ASSUME \A s \in Strs : NoDollar(s) => Message(Tab, s) = s
ASSUME \A s \in Strs : \A t \in {<<>>, <<97>>, <<36, 36>>, <<36, 97, 36>>} : Closed(s) => Message(Tab, s \o t) = Message(Tab, s) \o Message(Tab, t)
ASSUME \A s \in Strs : Closed(s) => Cardinality({i \in DOMAIN s : s[i] = 36}) % 2 = 0
\* a text all of whose dollars are doubled is shown as it is
RECURSIVE Doubled(_)
Doubled(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 36 THEN <<36, 36>> ELSE <<s[1]>>) \o Doubled(Tail(s))
ASSUME \A s \in Strs : Closed(Doubled(s)) /\ Message(Tab, Doubled(s)) = s
\* no two sets of flags, no two events and no two signals read alike
Flags == <<[k |-> 1, t |-> <<97>>], [k |-> 2, t |-> <<98>>], [k |-> 32768, t |-> <<99>>]>>
Far == {0, 1, 2, 3, 255, 256, 16384, 32768, 49153, 65535}
ASSUME \A n, m \in Far : FlagsText(Flags, n) = FlagsText(Flags, m) => n = m
ASSUME \A n \in Far : Len(FlagTexts(Flags, n, 0)) = Cardinality({b \in 0..15 : (n \div 2 ^ b) % 2 = 1})
ASSUME \A n, m \in Far : EventText(Flags, n) = EventText(Flags, m) => n = m
ASSUME Cardinality({SignalTemplate(b) : b \in 0..255}) = 256 /\ Cardinality({SealTemplate(b) : b \in 0..15}) = 16
ASSUME \A b \in 0..255 : SealTemplate(b) = SealTemplate(b % 16)
ASSUME \A a \in [1..4 -> Bytes3] : Address(AddressText(a)) = [ok |-> TRUE, a |-> a]
Vers == [1..3 -> 0..2]
ASSUME \A v, w \in Vers : v = w \/ (Newer(v, w) <=> ~Newer(w, v))
ASSUME \A u, v, w \in [1..3 -> 0..1] : Newer(u, v) /\ Newer(v, w) => Newer(u, w)
ASSUME \A v, w \in Vers : LET p == ServerSet(v, w, FALSE) IN p.ok => p.v = v /\ ~Newer(w, v)
\* every leaf of a value has its line, whatever stands before it
Leafs == {[k |-> "leaf", n |-> <<97>>, t |-> <<49>>, p |-> <<>>, x |-> <<>>]}
Empty == {[k |-> "array", n |-> <<98>>, t |-> <<>>, p |-> <<>>, x |-> <<>>], [k |-> "leaf", n |-> <<99>>, t |-> <<>>, p |-> <<>>, x |-> <<>>]}
Small == Leafs \cup Empty
Nested == Small \cup {[k |-> "struct", n |-> <<100>>, t |-> <<>>, p |-> <<>>, x |-> <<a, b>>] : a, b \in Small} \cup {[k |-> "array", n |-> <<101>>, t |-> <<>>, p |-> <<>>, x |-> <<a, b>>] : a, b \in Small}
RECURSIVE CountLeaves(_), CountMarks(_)
CountLeaves(x) == IF x = <<>> THEN 0 ELSE (IF x[1].k = "leaf" THEN 1 ELSE CountLeaves(x[1].x)) + CountLeaves(Tail(x))
CountMarks(s) == IF s = <<>> THEN 0 ELSE (IF s[1] = 58 THEN 1 ELSE 0) + CountMarks(Tail(s))
ASSUME \A a, b, c \in Nested : LET v == [k |-> "struct", n |-> <<102>>, t |-> <<>>, p |-> <<>>, x |-> <<a, b, c>>]
                               IN \A r \in ReportOf(<<111>>, <<v>>) : CountMarks(r) = CountLeaves(<<v>>)
Emit == IF Len(hist) > Steps THEN PrintT(<<"GEN", ToJson([ops |-> hist])>>) ELSE TRUE
=============================================================================

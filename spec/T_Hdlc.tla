------------------------------- MODULE T_Hdlc ------------------------------
(* Records of the real frame, address, control and reassembly code.          *)
EXTENDS HdlcSegments, TraceBase

S0 == <<>>

(* ---------------------------- P02 frame layout -------------------------- *)
JudgeFrame(s, e) ==
  LET f == e.f
      o == e.o
  IN [st |-> s,
      why |-> IF ~WellFormed(f)
              THEN Clause("oversized-frame-accepted", o.e = "ValueError")
              ELSE IF o.e # "" THEN {"frame-refused-" \o o.e}
              ELSE Clause("frame-octets", o.bytes = EncFrame(f))
                   \cup Clause("frame-length", o.len = FrameLen(f))
                   \cup Clause("own-fields", o.own = f)
                   \cup Clause("parse-gives-frame-back", o.back = <<f>>)
                   \cup Clause("reencoding", o.again = EncFrame(f))
                   \cup Clause("closing-flag-kept", o.left = <<Flag>>)]

(* -------------------------- P03 damaged frames -------------------------- *)
JudgeDamage(s, e) ==
  [st |-> s,
   why |-> CASE e.ev = "crc" -> Clause("fcs-value", e.o.e = "" /\ e.o.fcs = Fcs(e.msg))
             [] e.ev = "check" -> Clause("fcs-comparison", (e.o.e = "") = (Take(e.value, 2) = Fcs(e.msg)))
             [] e.ev = "damage" ->
                  IF e.o.e # "" THEN {"receiver-raised-" \o e.o.e}
                  ELSE Clause("damaged-frame-delivered", Len(e.o.out) <= Len(Drain(e.bytes, <<>>).out))
                       \cup Clause("intact-frame-not-delivered", Len(e.o.out) >= Len(Drain(e.bytes, <<>>).out))
                       \cup Clause("frame-altered", e.o.out = Drain(e.bytes, <<>>).out)]

(* ----------------------------- P04 addresses ---------------------------- *)
AddrWidths(up, lo, len) ==
  IF len # None THEN {len}
  ELSE IF lo = 0 /\ up < 128 THEN {1, 2} ELSE {AddrWidth(up, lo)}
MustFit(up, lo, len) == len = None \/ len >= AddrWidth(up, lo)
MayRefuse(up, lo, len) == lo = None /\ len # None /\ len > AddrWidth(up, lo)

JudgeAddr(s, e) ==
  [st |-> s,
   why |->
    CASE e.ev = "alen" ->
           IF e.n \in {-1, 1, 2, 4} THEN Clause("address-length-text", e.o.e = "" /\ e.o.v = e.n)
           ELSE Clause("impossible-length-accepted", e.o.e = "ValueError")
      [] e.ev = "addr" ->
           IF ~AddrParts(e.up, e.lo) \/ ~MustFit(e.up, e.lo, e.len)
           THEN Clause("impossible-address-accepted", e.o.e = "ValueError")
           ELSE IF e.o.e # "" THEN Clause("address-refused-" \o e.o.e, MayRefuse(e.up, e.lo, e.len) /\ e.o.e = "ValueError")
           ELSE Clause("address-width", Len(e.o.content) \in AddrWidths(e.up, e.lo, e.len))
                \cup Clause("address-octets", Len(e.o.content) \in {1, 2, 4} /\ e.o.content = AddrBytes(e.up, e.lo, Len(e.o.content)))
                \cup Clause("address-parts", e.o.up = e.up /\ Lo0(e.o.lo) = Lo0(e.lo))
                \cup Clause("address-length", e.o.len = Len(e.o.content))
      [] e.ev = "scan" ->
           LET n == AddrScan(e.bytes)
           IN IF n = 0 THEN Clause("address-without-end-accepted", e.o.e # "")
              ELSE IF e.o.e # "" THEN {"address-refused-" \o e.o.e}
              ELSE Clause("address-octets", e.o.content = Take(e.bytes, n))
                   \cup Clause("octets-consumed", e.o.rest = Drop(e.bytes, n))
                   \cup Clause("address-parts", e.o.up = AddrUp(Take(e.bytes, n)) /\ e.o.lo = AddrLo(Take(e.bytes, n)))
      [] e.ev = "same" ->
           Clause("address-equality", e.o.e = "" /\ e.o.eq = (e.a = e.b) /\ (e.a = e.b => e.o.hash))
      [] e.ev = "forme" ->
           Clause("addressed-to-me", e.o.e = "" /\ e.o.v = (e.da = e.fsa /\ e.sa = e.fda))]

\* the octets of the functions, without the poll bit (ISO/IEC 13239)
OctetOf(f, s, r) == CASE f = "I" -> 2 * s + 32 * r [] f = "RR" -> 1 + 32 * r [] f = "RNR" -> 5 + 32 * r [] f = "REJ" -> 9 + 32 * r [] f = "SREJ" -> 13 + 32 * r
  [] f = "SNRM" -> 131 [] f = "SNRME" -> 207 [] f = "SARM" -> 15 [] f = "SARME" -> 79 [] f = "SABM" -> 47 [] f = "SABME" -> 111 [] f = "DISC" -> 67
  [] f = "UA" -> 99 [] f = "DM" -> 15 [] f = "FRMR" -> 135 [] f = "RSET" -> 143 [] f = "TEST" -> 227 [] f = "XID" -> 175 [] f = "UI" -> 3 [] f = "UIH" -> 239
  [] f = "UP" -> 35 [] f \in {"SIM", "RIM"} -> 7 [] f = "RD" -> 67 [] f = "SM" -> 195 [] OTHER -> -1
(* ------------------------- P05 control sequence ------------------------- *)
\* state: the control value reached by the chain of successor operations
JudgeCtl(s, e) ==
  CASE e.ev = "class" ->
         LET c == e.c
         IN [st |-> s,
             why |-> IF e.o.e # "" THEN {"control-raised-" \o e.o.e} ELSE
                     Clause("kind", e.o.info = IsI(c) /\ e.o.sup = IsS(c) /\ e.o.unn = IsU(c))
                     \cup Clause("carries-information", e.o.ui = (IsI(c) \/ c \in {3, 19}))
                     \cup Clause("supervisory-function",
                            /\ e.o.rr = (IsS(c) /\ (c \div 4) % 4 = 0) /\ e.o.rnr = (IsS(c) /\ (c \div 4) % 4 = 1)
                            /\ e.o.rej = (IsS(c) /\ (c \div 4) % 4 = 2) /\ e.o.srej = (IsS(c) /\ (c \div 4) % 4 = 3))
                     \cup Clause("poll", ~IsU(c) => (e.o.poll = PF(c)))
                     \cup Clause("octet", e.o.octet = <<c>>)]
    [] e.ev = "named" -> [st |-> s, why |-> LET c == OctetOf(e.f, e.s, e.r) IN Clause("named-octet", c = -1 \/ e.o.v = c + (IF e.p THEN 16 ELSE 0))]
    [] e.ev = "succ" ->
         [st |-> s,
          why |-> IF e.o.e # "" THEN {"control-raised-" \o e.o.e} ELSE
                  Clause("next-in-send-order", Range2(e.o.nsend) = {NextSend(e.c)})
                  \cup Clause("next-in-both-orders", Range2(e.o.next) = {NextSend(NextRecv(e.c))})]
    [] e.ev = "start" -> Ok(e.c)
    [] e.ev = "send" -> LET v == NextSend(s) IN [st |-> v, why |-> Clause("send-counter", e.o.e = "" /\ e.o.c = v)]
    [] e.ev = "recv" -> LET v == NextRecv(s) IN [st |-> v, why |-> Clause("receive-counter", e.o.e = "" /\ e.o.c = v)]

(* ---------------------------- P06 reassembly ---------------------------- *)
JudgeJoin(s, e) ==
  LET r == Join(e.q)
  IN [st |-> s,
      why |-> IF e.o.e \notin {"", "ValueError"} THEN {"reassembly-raised-" \o e.o.e}
              ELSE IF ~r.ok THEN Clause("incomplete-run-accepted", e.o.e = "ValueError")
              ELSE IF e.o.e # "" THEN {"complete-run-refused"}
              ELSE Clause("reassembled-octets", e.o.info = r.info)
                   \cup Clause("frames-left-in-queue", e.o.left = Len(r.rest))]
=============================================================================

---------------------------- MODULE Negotiation ----------------------------
(* Negotiation of the link parameters in the information field of SNRM / UA  *)
(* (IEC 62056-46, 6.4.4.4.3.2).  p.it / p.ir: maximum information field      *)
(* length transmit / receive; p.wt / p.wr: window size transmit / receive.   *)
EXTENDS Bytes

DefInfo == 128
DefWin == 1
InfoRange == 32..2030
WinRange == 1..7
Default == [it |-> DefInfo, ir |-> DefInfo, wt |-> DefWin, wr |-> DefWin]
Params(p) == p.it \in InfoRange /\ p.ir \in InfoRange /\ p.wt \in WinRange /\ p.wr \in WinRange

InfoTlv(tag, v) == IF v = DefInfo THEN <<>>
                   ELSE IF v < 256 THEN <<tag, 1, v>> ELSE <<tag, 2>> \o BE(v, 2)
WinTlv(tag, v) == IF v = DefWin THEN <<>> ELSE <<tag, 4>> \o BE(v, 4)

\* only parameters different from the default are sent; none at all: empty field
Offer(p) == LET g == InfoTlv(5, p.it) \o InfoTlv(6, p.ir) \o WinTlv(7, p.wt) \o WinTlv(8, p.wr)
            IN IF g = <<>> THEN <<>> ELSE <<129, 128, Len(g)>> \o g

(* The peer's transmit limits are what we receive, and the other way round.  *)
Bad0 == [ok |-> FALSE, p |-> Default]

RECURSIVE ParamList(_, _)
ParamList(s, p) ==
  IF s = <<>> THEN [ok |-> TRUE, p |-> p]
  ELSE IF Len(s) < 2 \/ s[1] \notin 5..8 \/ s[2] > Len(s) - 2 THEN Bad0
  ELSE LET z == StripZeros(Slice(s, 3, s[2]))
           v == IF Len(z) > 2 THEN 65536 ELSE FromBE(z)
           rest == Drop(s, 2 + s[2])
       IN CASE s[1] = 5 -> IF v \in InfoRange THEN ParamList(rest, [p EXCEPT !.ir = v]) ELSE Bad0
            [] s[1] = 6 -> IF v \in InfoRange THEN ParamList(rest, [p EXCEPT !.it = v]) ELSE Bad0
            [] s[1] = 7 -> IF v \in WinRange THEN ParamList(rest, [p EXCEPT !.wr = v]) ELSE Bad0
            [] s[1] = 8 -> IF v \in WinRange THEN ParamList(rest, [p EXCEPT !.wt = v]) ELSE Bad0

Accept(c) == IF c = <<>> THEN [ok |-> TRUE, p |-> Default]
             ELSE IF Len(c) < 3 \/ c[1] # 129 \/ c[2] # 128 \/ c[3] # Len(c) - 3 THEN Bad0
             ELSE ParamList(Drop(c, 3), Default)

Mirror(p) == [it |-> p.ir, ir |-> p.it, wt |-> p.wr, wr |-> p.wt]

\* a refused UA changes nothing
AfterUA(p, c) == LET r == Accept(c) IN IF r.ok THEN r.p ELSE p
=============================================================================

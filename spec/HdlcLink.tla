------------------------------ MODULE HdlcLink -----------------------------
(* Two stations in normal response mode exchanging I frames over a line that *)
(* repeats frames: the send and receive counters of the control field.       *)
EXTENDS HdlcFrame, Json

CONSTANT MaxMsgs

VARIABLES c,       \* control octet of the station's latest I frame
          sent,    \* how many I frames it has numbered
          got,     \* how many of the peer's it has acknowledged
          hist     \* the operations, for replay

lvars == <<c, sent, got, hist>>

Init == /\ c \in {0, 16, 254, 98} /\ sent = NS(c) /\ got = NR(c)
        /\ hist = <<[op |-> "start", c |-> c]>>
Bound == Len(hist) <= MaxMsgs
Send == /\ Bound /\ c' = NextSend(c) /\ sent' = sent + 1 /\ UNCHANGED got
        /\ hist' = Append(hist, [op |-> "send", c |-> c'])
Recv == /\ Bound /\ c' = NextRecv(c) /\ got' = got + 1 /\ UNCHANGED sent
        /\ hist' = Append(hist, [op |-> "recv", c |-> c'])
Next == Send \/ Recv
Spec == Init /\ [][Next]_lvars

CountersModulo8 == IsI(c) /\ NS(c) = sent % 8 /\ NR(c) = got % 8
\* eight consecutive frames carry eight different numbers, the ninth repeats
Distinct8 == \A k \in 1..7 : (sent + k) % 8 # sent % 8
View == <<c, sent, got>>
Emit == Len(hist) > MaxMsgs => PrintT(<<"GEN", ToJson([h |-> hist])>>)
=============================================================================

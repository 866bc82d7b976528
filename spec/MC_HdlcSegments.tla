-------------------------- MODULE MC_HdlcSegments --------------------------
(* A sender cuts a message into segments N(S), N(S)+1, ... (mod 8); the line *)
(* adds supervisory and unnumbered frames, repeats segments and may lose     *)
(* one.  The receiver queue is reassembled.                                  *)
EXTENDS HdlcSegments, Json

CONSTANTS MaxSegs, MaxExtra, Starts

VARIABLES q, n, msg, last, done, extra, lost

vars == <<q, n, msg, last, done, extra, lost>>

Pay(k) == CASE k % 3 = 0 -> <<k, k>> [] k % 3 = 1 -> <<k>> [] OTHER -> <<>>

Init == /\ q = <<>> /\ n = 0 /\ msg = <<>> /\ done = FALSE /\ extra = 0 /\ lost = 0
        /\ last \in Starts                         \* control field preceding the first segment

Seg(f) == [ctl |-> NextSend(last), seg |-> ~f, info |-> Pay(n + 1)]

Send(f) == /\ ~done
           /\ (f \/ n + 1 < MaxSegs)
           /\ q' = Append(q, Seg(f))
           /\ msg' = msg \o Pay(n + 1)
           /\ last' = NextSend(last)
           /\ n' = n + 1 /\ done' = f
           /\ UNCHANGED <<extra, lost>>

Lose(f) == /\ ~done /\ lost = 0
           /\ (f \/ n + 1 < MaxSegs)
           /\ msg' = msg \o Pay(n + 1) /\ last' = NextSend(last)
           /\ n' = n + 1 /\ done' = f /\ lost' = n + 1
           /\ UNCHANGED <<q, extra>>

\* frames that do not belong to the run: RR, UA, a repeat of the latest segment
Intrude(x) == /\ extra < MaxExtra /\ ~done
              /\ q' = Append(q, [ctl |-> x, seg |-> FALSE, info |-> IF IsU(x) THEN <<255>> ELSE <<>>])
              /\ extra' = extra + 1
              /\ UNCHANGED <<n, msg, last, done, lost>>
Repeat == /\ extra < MaxExtra /\ n > 0 /\ lost = 0 /\ ~done /\ q # <<>> /\ IsI(q[Len(q)].ctl)
          /\ q' = Append(q, q[Len(q)])
          /\ extra' = extra + 1
          /\ UNCHANGED <<n, msg, last, done, lost>>

Next == \/ \E f \in BOOLEAN : Send(f) \/ Lose(f)
        \/ \E x \in {1, 17, 115, 3} : Intrude(x)
        \/ Repeat
Spec == Init /\ [][Next]_vars

\* a run received completely is reassembled exactly, whatever came in between
Exact == (done /\ lost = 0) => LET r == Join(q) IN r.ok /\ r.info = msg
\* an incomplete run never yields a message made of other octets: it fails, or
\* (first segments lost) yields the tail that was received
NoForgery == lost > 1 /\ lost <= 7 => LET r == Join(q) IN ~r.ok
Unfinished == ~done => ~Join(q).ok

Emit == PrintT(<<"GEN", ToJson([q |-> q])>>)
=============================================================================

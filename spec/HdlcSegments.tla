---------------------------- MODULE HdlcSegments ---------------------------
(* Reassembly of an information field sent as a run of segmented I frames.   *)
EXTENDS HdlcFrame

\* a received frame as far as reassembly is concerned: [ctl, seg, info]
RECURSIVE JoinFrom(_, _, _)
JoinFrom(cur, acc, q) ==
  IF ~cur.seg THEN [ok |-> TRUE, info |-> acc, rest |-> q]
  ELSE IF q = <<>> THEN [ok |-> FALSE, info |-> <<>>, rest |-> <<>>]
  ELSE IF IsI(Head(q).ctl) /\ Head(q).ctl = NextSend(cur.ctl)
       THEN JoinFrom(Head(q), acc \o Head(q).info, Tail(q))
       ELSE JoinFrom(cur, acc, Tail(q))

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN [ok |-> FALSE, info |-> <<>>, rest |-> <<>>]
           ELSE IF IsI(Head(q).ctl) THEN JoinFrom(Head(q), Head(q).info, Tail(q))
           ELSE Join(Tail(q))
=============================================================================

-------------------------- MODULE MC_Negotiation ---------------------------
(* Two stations over a line that may damage the field exchanged.             *)
EXTENDS Negotiation, Json

CONSTANTS Infos, Wins, MaxOps, Damages

VARIABLES a, b, line, clean, n, hist
vars == <<a, b, line, clean, n, hist>>
All == [it : Infos, ir : Infos, wt : Wins, wr : Wins]

InfosQ == {32, 127, 128, 255, 256, 2030}
WinsQ == {1, 2, 7}
InfosG == {32, 64, 128, 200, 255, 256, 1024, 2030}
WinsG == 1..7

Init == a = Default /\ b = Default /\ line = <<>> /\ clean = TRUE /\ n = 0 /\ hist = <<>>
Step(o) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, o)

SetA(f, v) == /\ a' = [a EXCEPT ![f] = v] /\ Step([op |-> "set", f |-> f, v |-> v, c |-> <<>>]) /\ UNCHANGED <<b, line, clean>>
Send == /\ line' = Offer(a) /\ clean' = TRUE /\ Step([op |-> "offer", f |-> "", v |-> 0, c |-> <<>>]) /\ UNCHANGED <<a, b>>
Reply == /\ line' = Offer(b) /\ clean' = FALSE /\ Step([op |-> "peer", f |-> "", v |-> 0, c |-> Offer(b)]) /\ UNCHANGED <<a, b>>
Hurt(k, x) == /\ k <= Len(line) /\ line[k] # x /\ line' = [line EXCEPT ![k] = x] /\ clean' = FALSE /\ n < MaxOps /\ n' = n + 1
              /\ UNCHANGED <<a, b, hist>>
Chop(k) == /\ k < Len(line) /\ line' = Take(line, k) /\ clean' = FALSE /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<a, b, hist>>
TakeB == /\ b' = AfterUA(b, line) /\ Step([op |-> "peerua", f |-> "", v |-> 0, c |-> line]) /\ UNCHANGED <<a, line, clean>>
TakeA == /\ a' = AfterUA(a, line) /\ Step([op |-> "ua", f |-> "", v |-> 0, c |-> line]) /\ clean' = FALSE /\ UNCHANGED <<b, line>>

Next == \/ \E v \in Infos : SetA("it", v) \/ SetA("ir", v)
        \/ \E v \in Wins : SetA("wt", v) \/ SetA("wr", v)
        \/ Send \/ Reply \/ TakeB \/ TakeA
        \/ \E k \in 1..23, x \in Damages : Hurt(k, x)
        \/ \E k \in 0..22 : Chop(k)
Spec == Init /\ [][Next]_vars
InitAll == a \in All /\ b \in {Default, [it |-> 200, ir |-> 512, wt |-> 3, wr |-> 5]} /\ line = <<>> /\ clean = TRUE /\ n = 0 /\ hist = <<>>
SpecAll == InitAll /\ [][Send \/ TakeB]_vars

TypeOK == Params(a) /\ Params(b) /\ Len(line) <= 23
\* an undamaged offer makes the peer agree with the station that sent it
Agreement == (clean /\ line = Offer(a)) => AfterUA(b, line) = Mirror(a)
\* an offer is understood whatever the parameters, and nothing else is its own image
OfferRoundTrip == Accept(Offer(a)).ok /\ Mirror(Accept(Offer(a)).p) = a
View == <<a, b, line, clean, n>>
Emit == n >= MaxOps => PrintT(<<"GEN", ToJson([h |-> hist])>>)
=============================================================================

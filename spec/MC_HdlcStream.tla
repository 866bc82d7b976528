--------------------------- MODULE MC_HdlcStream ---------------------------
(* Streams made of frames, damaged frames, noise and idle flags; every way   *)
(* of cutting them into chunks.                                              *)
EXTENDS HdlcStream, Json

CONSTANTS MaxTokens, MaxChunk, MaxFeeds

A1 == <<3>>
A2 == <<2, 35>>
A4 == <<0, 2, 4, 71>>
F1 == [da |-> A1, sa |-> <<33>>, ctl |-> 147, info |-> <<>>, seg |-> FALSE]
F2 == [da |-> A2, sa |-> <<33>>, ctl |-> 16, info |-> <<126, 160>>, seg |-> FALSE]
F3 == [da |-> <<33>>, sa |-> A4, ctl |-> 50, info |-> <<1>>, seg |-> TRUE]

E1 == EncFrame(F1)
E2 == EncFrame(F2)
E3 == EncFrame(F3)

SetAt(s, i, v) == [s EXCEPT ![i] = v]

\* name, octets, and the frames it contains whatever surrounds it
Tokens == <<
  [n |-> "frame",        b |-> E1,                          clean |-> TRUE,  f |-> <<F1>>],
  [n |-> "info-frame",   b |-> E2,                          clean |-> TRUE,  f |-> <<F2>>],
  [n |-> "shared-flag",  b |-> Take(E1, Len(E1) - 1) \o E3, clean |-> TRUE,  f |-> <<F1, F3>>],
  [n |-> "noise",        b |-> <<0, 160, 255>>,             clean |-> TRUE,  f |-> <<>>],
  [n |-> "idle",         b |-> <<126, 126, 126>>,           clean |-> TRUE,  f |-> <<>>],
  [n |-> "bad-fcs",      b |-> SetAt(E2, Len(E2) - 1, (E2[Len(E2) - 1] ^^ 1)), clean |-> FALSE, f |-> <<>>],
  [n |-> "bad-hcs",      b |-> SetAt(E3, 10, (E3[10] ^^ 128)), clean |-> FALSE, f |-> <<>>],
  [n |-> "truncated",    b |-> Take(E2, 8),                 clean |-> FALSE, f |-> <<>>],
  [n |-> "short-length", b |-> <<126, 160, 2, 126>>,        clean |-> FALSE, f |-> <<>>],
  [n |-> "half-address", b |-> <<126, 160, 4, 2, 2, 126>>,  clean |-> FALSE, f |-> <<>>],
  [n |-> "wrong-type",   b |-> <<126, 144, 7, 3, 33>>,      clean |-> FALSE, f |-> <<>>],
  [n |-> "wrong-end",    b |-> SetAt(E1, Len(E1), 125),     clean |-> FALSE, f |-> <<>>] >>

TokIdx == 1..Len(Tokens)
Seqs == UNION {[1..k -> TokIdx] : k \in 1..MaxTokens}
Bytes_(ts) == Cat([i \in 1..Len(ts) |-> Tokens[ts[i]].b])
Frames_(ts) == Cat([i \in 1..Len(ts) |-> Tokens[ts[i]].f])

VARIABLES toks, cuts
vars == <<svars, toks, cuts>>

Init == /\ toks \in Seqs
        /\ cuts = <<>>
        /\ all = Bytes_(toks) /\ pos = 0 /\ buf = <<>> /\ out = <<>>

Next == /\ Len(cuts) < MaxFeeds
        /\ \E n \in 1..MaxChunk :
             /\ Feed(n)
             /\ cuts' = Append(cuts, n)
        /\ UNCHANGED toks
FinishAll == /\ Len(cuts) >= MaxFeeds
             /\ pos < Len(all)
             /\ Feed(Len(all) - pos)
             /\ cuts' = Append(cuts, Len(all) - pos)
             /\ UNCHANGED toks

Spec == Init /\ [][Next \/ FinishAll]_vars

View == <<toks, pos, buf, out, Len(cuts)>>

\* nothing lost: a stream of intact frames, idle flags and flag-free noise is
\* delivered completely once it has been received completely
NoLoss == (pos = Len(all) /\ \A i \in 1..Len(toks) : Tokens[toks[i]].clean)
            => out = Frames_(toks)
\* damaged material before an intact frame does not make the receiver deliver
\* anything that is not one of the intact frames
NoPhantom == \A i \in 1..Len(out) : out[i] \in {F1, F2, F3}

\* behaviour generation
Emit == (pos = Len(all)) => PrintT(<<"GEN", ToJson([toks |-> toks, bytes |-> all, cuts |-> cuts])>>)
=============================================================================

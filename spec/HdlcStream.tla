----------------------------- MODULE HdlcStream ----------------------------
(* Reception of an octet stream cut into chunks at arbitrary places.         *)
EXTENDS HdlcFrame

VARIABLES all,      \* the whole octet stream on the line
          pos,      \* octets handed to the receiver so far
          buf,      \* receive buffer after draining
          out       \* frames delivered, in order

svars == <<all, pos, buf, out>>

StreamInit(S) == all \in S /\ pos = 0 /\ buf = <<>> /\ out = <<>>

Feed(n) ==
  /\ pos + n <= Len(all)
  /\ LET r == Arrive(buf, Slice(all, pos + 1, n))
     IN buf' = r.buf /\ out' = out \o r.out
  /\ pos' = pos + n
  /\ UNCHANGED all

\* what has been delivered depends on the octets received, not on their chunking
ChunkingIndependent ==
  LET r == Drain(Take(all, pos), <<>>) IN out = r.out /\ buf = r.buf

\* everything delivered was on the line, in this order, without overlap
RECURSIVE InOrder(_, _)
InOrder(fs, s) ==
  fs = <<>> \/ \E k \in 0..Len(s) :
                 LET e == EncFrame(Head(fs))
                 IN /\ IsPfx(e, Drop(s, k))
                    /\ InOrder(Tail(fs), Drop(s, k + Len(e) - 1))
OnlyWhatWasSent == InOrder(out, Take(all, pos))

\* nothing useful is thrown away: the buffer is a suffix of what was received
BufferIsSuffix == IsPfx(Rev(buf), Rev(Take(all, pos)))
=============================================================================

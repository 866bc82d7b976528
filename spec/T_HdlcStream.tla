--------------------------- MODULE T_HdlcStream ----------------------------
(* Records of the real receiver: ev = "feed": a chunk was appended to the    *)
(* receive buffer and recognition was repeated until it made no progress.    *)
EXTENDS HdlcFrame, TraceBase

S0 == <<>>                                  \* receive buffer

JudgeStream(b, e) ==
  LET r == Arrive(b, e.chunk)
  IN [st |-> r.buf,
      why |-> IF e.o.e # "" THEN {"receiver-raised-" \o e.o.e}
              ELSE IF e.o.steps < 0 THEN {"recognition-does-not-terminate"}
              ELSE IF e.o.out = r.out THEN {}
              ELSE IF Len(e.o.out) < Len(r.out) THEN {"frame-lost-or-late"}
              ELSE IF Len(e.o.out) > Len(r.out) THEN {"frame-invented-or-repeated"}
              ELSE {"frame-altered"}]
=============================================================================

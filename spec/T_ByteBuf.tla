----------------------------- MODULE T_ByteBuf -----------------------------
(* Records of the positioned octet buffers.  After every operation the       *)
(* record shows all of them: contents and position of each buffer, contents  *)
(* of every window handed out.                                               *)
EXTENDS ByteBuf, TraceBase

KindOf(e) == CASE e = "" -> {""}
               [] e = "space" -> {"BufferError"}
               [] e = "index" -> {"IndexError"}
               [] OTHER -> {"TypeError", "ValueError"}

JudgeBuf(h, e) ==
  LET r == Do(h, e.op)
      shown == Len(e.o.bufs) = Len(r.h.bufs) /\ Len(e.o.views) = Len(r.h.views)
  IN [st |-> r.h,
      why |-> Clause(IF r.e = "" THEN "refused" ELSE IF e.o.e = "" THEN "accepted" ELSE "error-kind", e.o.e \in KindOf(r.e))
              \cup Clause("returned-octets", (r.e = "" /\ e.op.op \in {"read", "readpos", "get", "getuint", "getuint8", "getuintpos"}) => e.o.r = r.r)
              \cup Clause("amount-written", (r.e = "" /\ e.op.op \in {"write", "writepos", "putint"}) => e.o.k = (IF e.op.op = "putint" THEN 1 ELSE Len(e.op.v)))
              \cup Clause("amount-written", (r.e = "" /\ e.op.op = "putlen") => e.o.k = Len(LenEnc(e.op.n)))
              \cup (IF ~shown THEN {"windows"}
                    ELSE Clause("position", \A i \in 1..Len(r.h.bufs) : e.o.bufs[i].pos = r.h.bufs[i].pos)
                         \cup Clause("remaining", \A i \in 1..Len(r.h.bufs) : e.o.bufs[i].left = r.h.bufs[i].len - r.h.bufs[i].pos /\ e.o.bufs[i].len = r.h.bufs[i].len)
                         \cup Clause("contents", \A i \in 1..Len(r.h.bufs) : e.o.bufs[i].d = Seen(r.h, r.h.bufs[i]))
                         \cup Clause("window-contents", \A i \in 1..Len(r.h.views) : e.o.views[i] = Seen(r.h, r.h.views[i])))]
=============================================================================

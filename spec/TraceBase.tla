----------------------------- MODULE TraceBase -----------------------------
(* Skeleton of every trace specification.  A trace is a sequence of events   *)
(* recorded from the real code.  Events of one case are consecutive; the     *)
(* first one has first = TRUE, and nx is the line of the next case.  A trace *)
(* specification supplies InitSt (abstract state at the start of a case) and *)
(* Judge(st, e) = [st |-> abstract state after the event,                    *)
(*                 why |-> names of the clauses the event violates].         *)
(* The verdict is total: a violated clause is reported by name, the rest of  *)
(* that case is skipped and the next case starts afresh.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt, Judge(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Trace)

VARIABLES l, st
tvars == <<l, st>>

TraceInit == l = 1 /\ st = InitSt

TraceNext ==
  /\ l <= TLen
  /\ LET e == Trace[l]
         s0 == IF e.first THEN InitSt ELSE st
         r == Judge(s0, e)
     IN IF r.why = {}
        THEN /\ l' = l + 1
             /\ st' = r.st
        ELSE /\ PrintT(<<"TRACE-BAD", l, r.why>>)
             /\ l' = e.nx
             /\ st' = InitSt
  /\ IF l' > TLen THEN PrintT(<<"TRACE-DONE", TLen>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* helpers for judges
Ok(s) == [st |-> s, why |-> {}]
Bad(s, w) == [st |-> s, why |-> {w}]
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================

----------------------------- MODULE T_Versions ----------------------------
(* Records of versions read from texts, compared and chosen from lists.      *)
EXTENDS Versions, TraceBase

NoVersions == [n |-> 0]
JudgeVersions(q, e) ==
  [st |-> q,
   why |->
     CASE e.ev = "read" -> LET v == Parse(e.s)
                           IN IF e.o.e # "" THEN {"raises"}
                              ELSE Clause("numbers", e.o.v.a = v.a /\ e.o.v.b = v.b /\ e.o.v.p = v.p) \cup Clause("additional", e.o.v.t = v.t)
                                   \cup Clause("text", e.o.text = Text(v)) \cup Clause("report", e.o.report = Report(v))
                                   \cup Clause("read-back", e.o.back = [v EXCEPT !.t = <<>>])
       [] e.ev = "made" -> Clause("fields", e.o.v = e.v) \cup Clause("text", e.o.text = Text(e.v)) \cup Clause("report", e.o.report = Report(e.v))
       [] e.ev = "two" -> Clause("raises", e.o.e = "")
                          \cup (IF e.o.e # "" THEN {}
                                ELSE Clause("gt", e.o.gt = Later(e.v, e.w)) \cup Clause("ge", e.o.ge = NotEarlier(e.v, e.w))
                                     \cup Clause("lt", e.o.lt = Later(e.w, e.v)) \cup Clause("le", e.o.le = NotEarlier(e.w, e.v))
                                     \cup Clause("eq", e.o.eq = Alike(e.v, e.w) /\ e.o.ne = ~Alike(e.v, e.w)) \cup Clause("hash", Alike(e.v, e.w) => e.o.hash)
                                     \cup Clause("set", e.o.set = (IF Alike(e.v, e.w) THEN 1 ELSE 2)))
       [] e.ev = "nearest" -> IF e.o.e # "" THEN {"raises"} ELSE Clause("nearest", e.o.k >= 0 /\ NearestOk(e.v, e.ws, e.o.k)) \cup Clause("untouched", e.o.ws = e.ws)]
=============================================================================

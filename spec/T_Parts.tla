------------------------------- MODULE T_Parts -----------------------------
(* Records of types put together: the type first, then values of it read     *)
(* from octets, made, read from texts and compared.                          *)
EXTENDS Parts, TraceBase

NoParts == [f |-> "", t |-> NullT]
\* o: [e, x, len, wrote, enc, text, named, items]
Written(q, x, o) ==
  LET T == Open(q.t)  enc == Put(q.t, x)
  IN Clause("value", o.x = x) \cup Clause("octets", o.enc = enc)
     \cup (IF q.f = "pdu" THEN Clause("length", o.len = Len(enc)) \cup Clause("written", o.wrote = Len(enc)) \cup Clause("default-copy", o.again = x) ELSE {})
     \cup (IF Showable(T) THEN Clause("text", o.text = Shown(q.f, T, x)) ELSE {})
     \cup (IF T.k = "seq" THEN Clause("named", o.named = x.v) ELSE {})
     \cup (IF q.f = "pdu" THEN Clause("items", CASE T.k \in {"seq", "of"} -> o.items = x.v [] T.k \in LeafKinds -> [i \in DOMAIN o.items |-> o.items[i].c[1]] = x.c [] OTHER -> TRUE) ELSE {})
     \cup (IF q.f = "pdu" /\ T.k = "choice" THEN Clause("octets-of", o.bytes = enc) ELSE {})
     \cup (IF q.f = "pdu" /\ T.k \in LeafKinds THEN Clause("octets-of", o.bytes = x.c) ELSE {})
Judged(q, ok, kinds, x, o) ==
  Clause(IF ok THEN "good-refused" ELSE "bad-accepted", (o.e = "") = ok) \cup Clause("error-kind", o.e \in kinds \cup {""})
  \cup (IF ok /\ o.e = "" THEN Written(q, x, o) ELSE {})
TextErrors == {"ValueError", "OverflowError"}
JudgeParts(q, e) ==
  CASE e.ev = "type" -> Ok([f |-> e.f, t |-> e.t])
    [] e.ev = "get" -> LET r == Get(q.f, q.t, e.s)
                       IN [st |-> q, why |-> Judged(q, r.why = "", Errors(q.f, r.why), r.x, e.o)
                                             \cup (IF q.f = "pdu" /\ r.why = "" /\ e.o.e = "" THEN Clause("position", e.o.pos = e.at + r.m) ELSE {})]
    [] e.ev = "make" -> [st |-> q, why |-> Judged(q, TRUE, {}, e.x, e.o)]
    [] e.ev = "text" -> LET r == OfText(q.f, q.t, e.s) IN [st |-> q, why |-> Judged(q, r.ok, TextErrors, r.x, e.o)]
    [] e.ev = "default" -> [st |-> q, why |-> IF HasDefault(q.t) THEN Judged(q, TRUE, {}, DefaultOf(q.t), e.o) ELSE Judged(q, FALSE, {"ValueError"}, Leaf(<<>>), e.o)]
    [] e.ev = "num" -> LET r == IntOf(q.t, e.b)
                       IN [st |-> q, why |-> Judged(q, r.ok, TextErrors, r.x, e.o)
                                             \cup (IF r.ok /\ e.o.e = "" THEN Clause("number", e.o.num = e.b) ELSE {})]
    [] e.ev = "bool" -> [st |-> q, why |-> Judged(q, TRUE, {}, Leaf(IF e.n = 0 THEN <<0>> ELSE <<1>>), e.o) \cup Clause("truth", e.o.truth = (e.n # 0) /\ e.o.num = (IF e.n = 0 THEN 0 ELSE 1))]
    [] e.ev = "fixed" -> [st |-> q, why |-> Judged(q, Len(e.s) = q.t.w, {"ValueError"}, Leaf(e.s), e.o)]
    [] e.ev = "same" -> [st |-> q, why |-> Clause("raises", e.o.e = "") \cup Clause("equal", e.o.eq = (e.x = e.y) /\ e.o.ne = (e.x # e.y))]
    [] e.ev = "order" -> LET a == NumberIn(e.a, e.x)  b == NumberIn(e.b, e.y)
                         IN [st |-> q, why |-> Clause("raises", e.o.e = "") \cup Clause("order", e.o.gt = ~Le(a, b) /\ e.o.lt = ~Le(b, a))
                                               \cup (IF e.a = e.b THEN Clause("equal", e.o.eq = (e.x = e.y)) \cup Clause("hash", e.x = e.y => e.o.hash) ELSE {})]
=============================================================================

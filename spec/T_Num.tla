------------------------------- MODULE T_Num -------------------------------
(* Records of number cells (the integer types of common_data_types): a cell  *)
(* is made, set, cleared, shifted and compared; what it holds is shown after *)
(* every operation.  And of scaled numbers: value in units against octets.   *)
EXTENDS Num, TraceBase

NoCell == [has |-> FALSE, ty |-> Plain(17), c |-> <<>>]

\* what a cell shows: contents, encoding, value, text, order and hash
Shows(ty, c, o) ==
  LET x == Load(ty, c)
  IN Clause("contents", o.c = c) \cup Clause("encoding", o.enc = <<ty.t>> \o c) \cup Clause("value", o.dec = x /\ o.int = x)
     \cup Clause("text", o.text = Dec10(x)) \cup Clause("hash", o.hash)
\* the value offered: [ok, c] - ok false: must be refused
Offer(ty, e) ==
  LET no == [ok |-> FALSE, c |-> <<>>]
      of(x) == IF InRange(ty, x) THEN [ok |-> TRUE, c |-> Store(ty, x)] ELSE no
      oct(c) == IF InRange(ty, Load(ty, c)) THEN [ok |-> TRUE, c |-> c] ELSE no
      w == WidthOf(ty.t)
  IN CASE e.how = "int" -> of(e.x)
       [] e.how = "text" -> LET p == ParseInt(e.s) IN IF p.ok THEN of(p.x) ELSE no
       [] e.how = "octets" -> IF Len(e.s) >= w + 1 /\ e.s[1] = ty.t THEN oct(SubSeq(e.s, 2, w + 1)) ELSE no
       [] e.how = "contents" -> IF Len(e.s) = w THEN oct(e.s) ELSE no
       [] e.how = "none" -> of(IF ty.hasmin /\ ~ty.min.neg THEN ty.min ELSE Zero)

JudgeNum(st0, e) ==
  CASE e.ev \in {"new", "set"} ->
         LET ty == IF e.ev = "new" THEN e.ty ELSE st0.ty
             r == Offer(ty, e)
             st1 == IF r.ok THEN [has |-> TRUE, ty |-> ty, c |-> r.c] ELSE [st0 EXCEPT !.ty = ty]
         IN [st |-> st1,
             why |-> Clause(IF r.ok THEN "good-value-refused" ELSE "bad-value-accepted", (e.o.e = "") = r.ok)
                     \cup Clause("error-kind", e.o.e \in {"", "ValueError"})
                     \cup (IF st1.has THEN Shows(ty, st1.c, e.o) ELSE {})]
    [] e.ev = "clear" -> LET c == Offer(st0.ty, [how |-> "none"]).c
                         IN [st |-> [st0 EXCEPT !.c = c], why |-> Clause("refused", e.o.e = "") \cup Shows(st0.ty, c, e.o)]
    [] e.ev = "shift" -> LET c == Shift(st0.c, e.up, e.k)
                         IN [st |-> [st0 EXCEPT !.c = c], why |-> Clause("refused", e.o.e = "") \cup Shows(st0.ty, c, e.o)]
    [] e.ev = "copy" -> [st |-> st0, why |-> Clause("refused", e.o.e = "") \cup Shows(st0.ty, st0.c, e.o)]
    [] e.ev = "gt" -> [st |-> st0, why |-> Clause("order", e.o.e = "" /\ e.o.gt = ~Le(Load(st0.ty, st0.c), e.x) /\ e.o.eq = (Load(st0.ty, st0.c) = e.x /\ InRange(Plain(st0.ty.t), e.x)))]
    [] e.ev = "scaled" ->
         LET x == Load(e.ty, e.c)  k == e.sc - e.ps
         IN [st |-> st0, why |-> Clause("scaled-text", e.o.e = "" /\ e.o.text = Scaled(x, k))
                                 \cup Clause("scaled-roundtrip-value", e.o.byvalue = e.c)
                                 \cup Clause("scaled-roundtrip-text", e.o.bytext = e.c)
                                 \cup Clause("scaled-set", e.o.byset = e.c)]
    [] e.ev = "scgt" -> [st |-> st0, why |-> Clause("scaled-order", e.o.e = "" /\ e.o.gt = ~ScaledLe(Load(e.ty, e.c), e.sc - e.ps, e.x))]
    [] e.ev = "sctext" ->
         LET p == ParseScaled(e.s, e.sc - e.ps)
         IN [st |-> st0, why |-> IF InRange(e.ty, p.x) THEN Clause("scaled-from-text", e.o.e = "" /\ e.o.c = Store(e.ty, p.x))
                                 ELSE Clause("bad-value-accepted", e.o.e = "ValueError")]
=============================================================================

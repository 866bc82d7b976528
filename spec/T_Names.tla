------------------------------- MODULE T_Names -----------------------------
(* Records of names, descriptors, invoke octets, conformance blocks, codes.  *)
EXTENDS Names, TraceBase

Nothing == 0
Verdict(r, o) == Clause(IF r.ok THEN "good-value-refused" ELSE "bad-value-accepted", (o.e = "") = r.ok) \cup Clause("error-kind", o.e \in {"", "ValueError"})
\* o: [e, c, text, f: six groups, hash]
NameShown(c, o) == Clause("contents", o.c = c) \cup Clause("text", o.text = TextOfName(c)) \cup Clause("groups", o.f = c) \cup Clause("hash", o.hash \in {StripZeros(c), <<-1>>})
JudgeName(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "name" ->
          LET r == CASE e.how = "text" -> NameOfText(e.s) [] e.how = "contents" -> NameOfOctets(e.s)
                     [] e.how = "octets" -> IF Len(e.s) >= 8 /\ SubSeq(e.s, 1, 2) = <<9, 6>> THEN [ok |-> TRUE, c |-> SubSeq(e.s, 3, 8)] ELSE Bad6
                     [] e.how = "none" -> [ok |-> TRUE, c |-> <<0, 0, 1, 0, 0, 255>>]
          IN Verdict(r, e.o) \cup (IF r.ok /\ e.o.e = "" THEN NameShown(r.c, e.o) ELSE {})
     [] e.ev = "order" -> Clause("order", e.o.lt = Before(e.a, e.b)) \cup Clause("equality", e.o.eq = (e.a = e.b) /\ (e.a = e.b => e.o.same))
     [] e.ev = "sort" -> Clause("sorted", Len(e.o.l) = Len(e.l) /\ Range2(e.o.l) = Range2(e.l) /\ \A i \in 1..(Len(e.o.l) - 1) : ~Before(e.o.l[i + 1], e.o.l[i]))
     [] e.ev = "constant" -> Clause("constant", e.o.c = (CASE e.n = "ASSOCIATION_LN0" -> <<0, 0, 40, 0, 0, 255>> [] e.n = "LDN" -> <<0, 0, 42, 0, 0, 255>>
                                                        [] e.n = "OBJECT_LIST" -> <<0, 15, 0, 0, 40, 0, 0, 255, 2>> [] e.n = "LDN_VALUE" -> <<0, 1, 0, 0, 42, 0, 0, 255, 2>>))
     [] e.ev = "medium" -> Clause("medium", e.o.e = "" /\ e.o.cls = MediumOf(e.a)) \cup Clause("medium-text", e.o.text = (IF e.name = <<>> THEN e.o.clsp ELSE e.name))
                           \cup Clause("medium-equality", Range2(e.o.eq) = (IF MediumOf(e.a) = "Reserved" THEN {e.a} ELSE {v \in 0..255 : MediumOf(v) = MediumOf(e.a)}))]
JudgeService(q, e) ==
  [st |-> q, why |->
   CASE e.ev = "iip" ->
          Clause("refused", e.o.e = "") \cup Clause("invoke-id", e.o.i = InvokeOf(e.b)) \cup Clause("service-class", e.o.s = ClassOf(e.b))
          \cup (IF e.o.p = PrioOf(e.b) THEN {} ELSE IF e.o.p = ClassOf(e.b) THEN {"priority-from-bit-6"} ELSE {"priority"})
          \cup Clause("octet", e.o.c = <<InvokeOctet(e.o.i, e.o.s, e.o.p)>>)
     [] e.ev = "iipmake" -> Clause("octet", e.o.e = "" /\ e.o.c = <<InvokeOctet(e.i, e.s, e.p)>>)
     [] e.ev = "iipshort" -> Clause("short-accepted", e.o.e = "ValueError")
     [] e.ev = "desc" -> Clause("descriptor-octets", e.o.e = "" /\ e.o.c = DescOctets(e.cid, e.name, e.i))
     [] e.ev = "descread" ->
          LET d == DescOf(e.s)
          IN Verdict(d, e.o) \cup (IF d.ok /\ e.o.e = "" THEN Clause("descriptor-fields", e.o.cid = d.cid /\ e.o.name = d.name /\ e.o.i = d.i) \cup Clause("descriptor-octets", e.o.c = SubSeq(e.s, 1, 9)) ELSE {})
     [] e.ev = "classname" -> Clause("class-name", e.o.text = (IF e.name = <<>> THEN e.o.repr ELSE e.name))
     [] e.ev = "conf" ->
          LET r == CASE e.how = "text" -> ConfOfText(e.s) [] e.how = "contents" -> ConfOfContents(e.s) [] e.how = "octets" -> ConfOfOctets(e.s) [] e.how = "int" -> ConfOfInt(e.x)
                     [] e.how = "none" -> [ok |-> TRUE, c |-> <<127, 255, 255>>]
          IN Verdict(r, e.o) \cup (IF ~r.ok \/ e.o.e # "" THEN {}
             ELSE LET b == Bits24(r.c)
                  IN Clause("contents", e.o.c = r.c) \cup Clause("encoding", e.o.enc = <<4, 24>> \o r.c) \cup Clause("text", e.o.text = ConfText(r.c)) \cup Clause("bits", e.o.bits = b)
                     \cup Clause("named-bits", e.o.named = <<b[2], b[3], b[22]>>))
     [] e.ev = "confnames" -> Clause("bit-names", e.o.names = e.names)
     [] e.ev = "codes" -> Clause("codes", CodesOf(e.n) \subseteq {e.o.codes[i] : i \in 1..Len(e.o.codes)})]
=============================================================================

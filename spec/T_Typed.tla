------------------------------ MODULE T_Typed -------------------------------
(* Records of interface objects of every class: new ones, attributes set,    *)
(* cleared, reset and copied, parameters of methods, descriptors, and cells  *)
(* of the types of attributes and methods by themselves.                     *)
EXTENDS Typed, TraceBase

NoObj == [k |-> 0]
Is(w, e) == CASE w = "" -> e = "" [] w = "index" -> e = "IndexError" [] OTHER -> e \in {"ValueError", "UserfulTypesException"}
Verdict(w, e) == Clause(IF w = "" THEN "good-value-refused" ELSE IF e = "" THEN "bad-value-accepted" ELSE "error-kind", Is(w, e))
After(r, e) == [st |-> r.o, why |-> Verdict(r.e, e.o.e) \cup Clause(IF r.e = "" THEN "value" ELSE "changed-by-refusal", e.o.attrs = Enc1(r.o.a))]
Pick2(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
RECURSIVE Fill2(_, _, _)
Fill2(o, s, i) == IF i > Len(s) THEN o ELSE Fill2(IF s[i] = <<>> THEN o ELSE SetAttr(o, i, s[i]).o, s, i + 1)

JudgeTyped(q, e) ==
  CASE e.ev = "new" ->
         LET c == ClassNo(e.ck) o == NewObj(c, e.ln)
         IN [st |-> o, why |-> Clause("class", e.o.e = "" /\ e.o.id = Cls(c).id /\ e.o.ver = Cls(c).ver)
                               \cup Clause("attributes", e.o.names = Pick2(Attrs(c), LAMBDA a : a.n)) \cup Clause("methods", e.o.mnames = Pick2(Meths(c), LAMBDA a : a.n))
                               \cup Clause("who-changes-it", e.o.cls = Pick2(Attrs(c), LAMBDA a : a.c))
                               \cup Clause("initial-values", e.o.attrs = Enc1(o.a)) \cup Clause("initial-parameters", e.o.meths = Enc1(o.m))]
    [] e.ev = "set" -> After(SetAttr(q, e.i, e.s), e)
    [] e.ev = "clear" -> After(ClearAttr(q, e.i), e)
    [] e.ev = "reset" ->
         IF e.i \notin DOMAIN q.a THEN After(No(q, "index"), e)
         ELSE LET z == ResetTo(q, e.i)
              IN IF z # {} THEN After(SetAttr(q, e.i, CHOOSE s \in z : TRUE), e)
                 ELSE LET got == e.o.attrs[e.i] IN [After(SetAttr(q, e.i, got), e) EXCEPT !.why = @ \cup Clause("reset", got # <<>> /\ Accepts(AType(q, e.i), q.a[e.i], got))]
    [] e.ev = "kind" -> LET k == Kind(q, e.i) IN [st |-> q, why |-> Verdict(k.e, e.o.e) \cup Clause("data-type", k.e = "" /\ AType(q, e.i).k # "oid" => e.o.t = k.t)]
    [] e.ev = "element" -> [st |-> q, why |-> Verdict(IF e.i \in DOMAIN q.a THEN "" ELSE "index", e.o.e) \cup Clause("element", e.i \in DOMAIN q.a => e.o.n = Attrs(q.c)[e.i].n)]
    [] e.ev = "melement" -> [st |-> q, why |-> Verdict(IF e.i \in DOMAIN q.m THEN "" ELSE "index", e.o.e) \cup Clause("element", e.i \in DOMAIN q.m => e.o.n = Meths(q.c)[e.i].n)]
    [] e.ev = "descriptor" -> LET d == Descriptor(q, e.i)
                              IN [st |-> q, why |-> Clause("refused", (d.e = "") = (e.o.e = "")) \cup Clause("descriptor", e.o.d = d.d /\ e.o.d2 = d.d /\ e.o.d3 = d.d)]
    [] e.ev = "mset" -> LET r == SetMeth(q, e.i, e.s) IN [st |-> r.o, why |-> Verdict(r.e, e.o.e) \cup Clause("parameter", e.o.meths = Enc1(r.o.m))]
    [] e.ev = "time" ->
         LET ok == e.i \in 2..Len(q.a) r == Dec(CdtF, e.s) good == r.ok /\ r.val.t = 25
             n == IF ok /\ good THEN [q EXCEPT !.rt[e.i] = Enc(r.val)] ELSE q
         IN [st |-> n, why |-> Verdict(IF ~good /\ e.i > 1 THEN "bad" ELSE IF ~ok THEN "index" ELSE "", e.o.e) \cup Clause("read-time", e.o.times = Tail(n.rt))]
    [] e.ev = "copy" -> After(CopyObj(q, Fill2(NewObj(q.c, e.ln), e.src, 2)), e)
    [] e.ev = "values" -> LET r == CopyValues(q, Fill2(NewObj(q.c, e.ln), e.src, 2)) IN [After(r, e) EXCEPT !.why = @ \cup Clause("told", e.o.e = "" => e.o.r)]
    \* a value of the type the attribute has now, the object left alone
    [] e.ev = "encode" ->
         IF e.i \notin DOMAIN q.a THEN After(No(q, "index"), e)
         ELSE LET ty == AType(q, e.i) none == ty.k = "choice" /\ ~q.a[e.i].on ok == none \/ Accepts(ty, q.a[e.i], e.s)
              IN [After(Did(q), [e EXCEPT !.o.e = ""]) EXCEPT !.why = @ \cup Verdict(IF ok THEN "" ELSE "bad", e.o.e)
                     \cup Clause("encoded", e.o.enc = IF none \/ ~ok THEN <<>> ELSE Octets(Put(ty, q.a[e.i], e.s)))]
    \* a cell of a type by itself
    [] e.ev = "cell" ->
         LET c == ClassNo(e.ck) ty == IF e.meth THEN Meths(c)[e.i].t ELSE Attrs(c)[e.i].t ok == Accepts(ty, Fresh, e.s) p == Put(ty, Fresh, e.s)
         IN [st |-> [ty |-> ty, c |-> IF ok THEN p ELSE Fresh], why |-> Verdict(IF ok THEN "" ELSE "bad", e.o.e) \cup Clause("value", ok => e.o.enc = Octets(p))]
    [] e.ev = "cellset" ->
         LET ok == Accepts(q.ty, q.c, e.s) p == IF ok THEN Put(q.ty, q.c, e.s) ELSE q.c
         IN [st |-> [q EXCEPT !.c = p], why |-> Verdict(IF ok THEN "" ELSE "bad", e.o.e) \cup Clause(IF ok THEN "value" ELSE "changed-by-refusal", e.o.enc = Octets(p))]
=============================================================================

------------------------------- MODULE T_Texts -----------------------------
(* Records of text-like cells: a type is described (its elements named), then *)
(* cells of it are made from texts, numbers and octets and shown.             *)
EXTENDS Texts, TraceBase

NoType == [k |-> "none", tag |-> 0, sz |-> -1, els |-> <<>>, names |-> <<>>, pre |-> <<>>]
\* o: [e, c, enc, text, num, bits, dec, len, back]
Shows(q, c, o) ==
  LET readable == q.k = "utf8" => Utf8Dec(c).ok
  IN Clause("contents", o.c = c) \cup Clause("encoding", o.enc = EncOf(q, c))
     \cup (IF ~readable THEN {}
           ELSE Clause("text", o.text = TextOf(q, c)) \cup Clause("text-back", Reversible(q, c) => o.back = c))
     \cup (CASE q.k \in {"bool", "enum"} -> Clause("number", o.num = c[1])
             [] q.k = "speed" -> Clause("number", o.num = c[1]) \cup Clause("speed", o.speed = Speeds[c[1] + 1])
             [] q.k = "flags" -> Clause("bits", o.bits = Bits8(c[1]))
             [] q.k \in {"octets", "visible", "utf8"} -> Clause("length", o.num = Len(c))
                   \cup Clause("decoded", CASE q.k = "visible" -> o.dec = Shown1251(c) [] q.k = "octets" -> 32 \in Range2(c) \/ o.dec = Shown1251(c) [] OTHER -> TRUE)
             [] OTHER -> {})
JudgeTexts(q, e) ==
  CASE e.ev = "type" ->
         LET els == IF e.lib = "" THEN e.els ELSE LibCodes(e.lib)
             tag == IF e.lib = "" THEN e.tag ELSE LibTag(e.lib)
             named == e.k \in {"enum", "speed"}
         IN [st |-> [k |-> e.k, tag |-> tag, sz |-> e.sz, els |-> els, names |-> IF named THEN [i \in 1..Len(els) |-> ElementName(e.cls, e.cfg, els[i])] ELSE <<>>, pre |-> e.pre],
             why |-> IF e.k \in {"enum", "speed", "flags"} THEN Clause("elements", e.o.els = els) \cup Clause("element-names", named => e.o.names = [i \in 1..Len(els) |-> ElementName(e.cls, e.cfg, els[i])]) ELSE {}]
    [] e.ev = "make" ->
         LET r == CASE e.how = "text" -> ReadText(q, e.s)
                    [] e.how = "int" -> ReadInt(q, e.x)
                    [] e.how = "contents" -> ReadContents(q, e.s)
                    [] e.how = "none" -> Default(q)
         IN [st |-> q, why |-> Clause(IF r.ok THEN "good-value-refused" ELSE "bad-value-accepted", (e.o.e = "") = r.ok)
                               \cup Clause("error-kind", e.o.e \in {"", "ValueError"})
                               \cup (IF r.ok /\ e.o.e = "" THEN Shows(q, r.c, e.o) ELSE {})]
=============================================================================

-------------------------------- MODULE Cells ------------------------------
(* Values that can be changed: a cell of a simple type with its hooks, and   *)
(* the two containers.  A cell's value is its encoding.  Setting is          *)
(*   look at the offered value, ask the hook before, store, tell the hook    *)
(*   after                                                                   *)
(* and stops at the first refusal with nothing changed.                      *)
EXTENDS Axdr

\* ---------------------------------------------------------------- simple cell
Single(t, s) == LET r == Dec(CdtF, s) IN [ok |-> r.ok /\ r.val.t = t, enc |-> IF r.ok THEN Enc(r.val) ELSE <<>>]
\* outcome of setting cell [t, enc, pre, post] to octets s (good or not); veto: the hook before refuses
SetCell(c, s, veto) ==
  LET o == Single(c.t, s)
  IN CASE ~o.ok -> [c |-> c, e |-> "bad", log |-> <<>>]
       [] o.ok /\ c.pre /\ veto -> [c |-> c, e |-> "veto", log |-> << <<"pre", o.enc, c.enc>> >>]
       [] OTHER -> [c |-> [c EXCEPT !.enc = o.enc], e |-> "",
                    log |-> (IF c.pre THEN << <<"pre", o.enc, c.enc>> >> ELSE <<>>) \o (IF c.post THEN << <<"post", o.enc, o.enc>> >> ELSE <<>>)]

\* ---------------------------------------------------------------- containers
\* array [et: element tag, uniq, els: element encodings]; structure [ts: element tags, els]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
PutBefore(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))      \* before 0-based index i
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* Python indexes: negative counts from the end
PyIndex(n, i) == IF i < 0 THEN n + i ELSE i
Clip(n, i) == IF i < -n THEN 0 ELSE IF i < 0 THEN n + i ELSE Min2(i, n)

Done(c) == [c |-> c, e |-> "", r |-> <<>>]
Refuse(c, k) == [c |-> c, e |-> k, r |-> <<>>]

RECURSIVE Elements(_, _, _)
Elements(s, n, acc) == IF n = 0 THEN [ok |-> TRUE, els |-> acc]
                       ELSE LET r == Dec(CdtF, s) IN IF ~r.ok THEN [ok |-> FALSE, els |-> <<>>] ELSE Elements(r.rest, n - 1, Append(acc, Enc(r.val)))
\* the element encodings of an encoded container
Parts(t, s) ==
  LET r == Dec(CdtF, s)
  IN IF ~r.ok \/ r.val.t # t THEN [ok |-> FALSE, els |-> <<>>] ELSE [ok |-> TRUE, els |-> [i \in 1..Len(r.val.v) |-> Enc(r.val.v[i])]]

DoArray(a, o) ==
  LET n == Len(a.els)
      \* element by element from a sequence of encodings
      All(els) == IF (\E i \in 1..Len(els) : ~Single(a.et, els[i]).ok) \/ (a.uniq /\ ~Distinct([i \in 1..Len(els) |-> Single(a.et, els[i]).enc]))
                  THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els = [i \in 1..Len(els) |-> Single(a.et, els[i]).enc]])
  IN CASE o.op = "append" -> LET v == Single(a.et, o.v) IN IF ~v.ok \/ (a.uniq /\ v.enc \in Range2(a.els)) THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els = Append(@, v.enc)])
       \* an object of another type is no element and is left out
       [] o.op = "insert" -> IF o.v[1] # a.et THEN Done(a)
                             ELSE IF a.uniq /\ o.v \in Range2(a.els) THEN Refuse(a, "bad")
                             ELSE Done([a EXCEPT !.els = PutBefore(@, Clip(n, o.i), o.v)])
       [] o.op = "remove" -> IF o.v[1] # a.et THEN Done(a)
                             ELSE LET k == IF o.v \in Range2(a.els) THEN CHOOSE i \in 1..n : a.els[i] = o.v /\ \A j \in 1..(i - 1) : a.els[j] # o.v ELSE 0
                                  IN IF k = 0 THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els = Without(@, k)])
       [] o.op = "pop" -> LET k == PyIndex(n, IF o.has THEN o.i ELSE -1)
                          IN IF k \notin 0..(n - 1) THEN Refuse(a, "index") ELSE [c |-> [a EXCEPT !.els = Without(@, k + 1)], e |-> "", r |-> a.els[k + 1]]
       [] o.op = "clear" -> Done([a EXCEPT !.els = <<>>])
       [] o.op = "setoctets" -> LET p == Parts(1, o.s) IN IF p.ok THEN All(p.els) ELSE Refuse(a, "bad")
       [] o.op = "setlist" -> All(o.vs)
       [] o.op = "setnone" -> Done([a EXCEPT !.els = <<>>])
       [] o.op = "setel" -> LET k == PyIndex(n, o.i)        \* change one element in place
                            IN IF k \notin 0..(n - 1) THEN Refuse(a, "index")
                               ELSE LET v == Single(a.et, o.v) IN IF ~v.ok THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els[k + 1] = v.enc])
       [] o.op = "get" -> LET k == PyIndex(n, o.i) IN IF k \notin 0..(n - 1) THEN Refuse(a, "index") ELSE [c |-> a, e |-> "", r |-> a.els[k + 1]]

DoStruct(a, o) ==
  LET n == Len(a.ts)
      All(els) == IF Len(els) # n \/ \E i \in 1..Min2(n, Len(els)) : ~Single(a.ts[i], els[i]).ok THEN Refuse(a, "bad")
                  ELSE Done([a EXCEPT !.els = [i \in 1..n |-> Single(a.ts[i], els[i]).enc]])
  IN CASE o.op = "setoctets" -> LET p == Parts(2, o.s) IN IF p.ok THEN All(p.els) ELSE Refuse(a, "bad")
       [] o.op = "setlist" -> All(o.vs)
       [] o.op = "setel" -> LET v == Single(a.ts[o.i + 1], o.v) IN IF ~v.ok THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els[o.i + 1] = v.enc])
       [] o.op = "putel" -> IF o.v[1] # a.ts[o.i + 1] THEN Refuse(a, "bad") ELSE Done([a EXCEPT !.els[o.i + 1] = o.v])
       [] o.op = "get" -> IF o.i \notin 0..(n - 1) THEN Refuse(a, "index") ELSE [c |-> a, e |-> "", r |-> a.els[o.i + 1]]
EncOf(t, els) == <<t>> \o LenEnc(Len(els)) \o Cat(els)
=============================================================================

----------------------------- MODULE MC_Template ----------------------------
(* Meters of two small types with some values written and some cleared: the  *)
(* template of every choice of attributes, and what it is read to.           *)
EXTENDS Template, Json
CONSTANTS Steps, Deep
VARIABLES qs, hist
vars == <<qs, hist>>
view == qs

NA == <<0, 0, 40, 0, 1, 255>>
ND == <<0, 0, 96, 1, 1, 255>>
NR == <<1, 0, 1, 8, 0, 255>>
NS == <<0, 0, 10, 0, 100, 255>>
ClassFor(n) == CASE n = NA -> <<15, 1>> [] n = NR -> <<3, 0>> [] n = NS -> <<9, 0>> [] OTHER -> <<1, 0>>
Count(n) == CASE n = NA -> 9 [] n = NR -> 3 [] OTHER -> 2
Element(n, m) == Comp(2, <<Val(18, BE(ClassFor(n)[1], 2)), Val(17, <<ClassFor(n)[2]>>), Val(9, n),
                           Comp(2, <<Comp(1, [i \in 1..Count(n) |-> Comp(2, <<Val(15, <<i>>), Val(22, <<IF i = 1 THEN 1 ELSE m>>), Val(0, <<>>)>>)]), Comp(1, <<>>)>>)>>)
Listing(s) == Enc(Comp(1, [i \in DOMAIN s |-> Element(s[i][1], s[i][2])]))
Hex(i, s) == [i |-> i, w |-> "hex", s |-> s]
Node(n, as) == [n |-> n, c |-> ClassFor(n)[1], v |-> ClassFor(n)[2], attrs |-> as]
H == [dlms |-> 6, country |-> 7, cver |-> <<3, 0>>, man |-> <<49, 48, 49>>, stype |-> <<9, 1, 65>>, sver |-> <<>>]
TypeDoc(ns) == [root |-> "Objects", fmt |-> <<3, 0>>, h |-> H, nodes |-> ns]
TypeDocs == << TypeDoc(<<Node(NA, <<Hex(2, Listing(<< <<NA, 1>>, <<ND, 1>>, <<NR, 3>> >>))>>), Node(ND, <<Hex(2, <<17, 5>>)>>), Node(NR, <<Hex(2, <<6, 0, 0, 0, 1>>), Hex(3, <<2, 2, 15, 255, 22, 30>>)>>)>>),
               TypeDoc(<<Node(NA, <<Hex(2, Listing(<< <<NA, 1>>, <<NR, 3>>, <<NS, 3>> >>))>>), Node(NR, <<Hex(2, <<6, 0, 0, 0, 2>>)>>), Node(NS, <<>>)>>) >>
Libs == [k \in 1..2 |-> LoadOf(TypeDocs[k]).q]
New == [k \in 1..2 |-> CopyOf(Libs[k])]
ValuesOf(n) ==
  CASE n = ND -> {<<2, <<17, 5>>>>, <<2, <<17, 6>>>>}
    [] n = NR -> {<<2, <<6, 0, 0, 0, 7>>>>, <<3, <<2, 2, 15, 1, 22, 27>>>>}
    [] n = NS -> {<<2, <<1, 0>>>>, <<2, <<1, 1, 2, 2, 18, 0, 1, 1, 0>>>>}
    [] OTHER -> {}
Init == qs = New /\ hist = <<>>
Put2(k, n, i, s) == qs' = [qs EXCEPT ![k] = SetOf(@, At(@, n), i, s)] /\ hist' = Append(hist, [k |-> k, n |-> n, i |-> i, s |-> s])
Write == \E k \in 1..2 : \E n \in {ND, NR, NS} : \E x \in ValuesOf(n) : Col!Has(qs[k].c, n) /\ Put2(k, n, x[1], x[2])
Clear == \E k \in 1..2 : \E n \in {ND, NR, NS} : \E i \in 2..3 :
           Col!Has(qs[k].c, n) /\ i <= Count(n) /\ qs' = [qs EXCEPT ![k].obs[At(qs[k], n)].a[i] = Fresh] /\ hist' = Append(hist, [k |-> k, n |-> n, i |-> i, s |-> <<>>])
Next == Len(hist) < Steps /\ (Write \/ Clear)
Spec == Init /\ [][Next]_vars

U(n, s) == [n |-> n, s |-> s]
Uses == {<<>>, <<U(ND, <<2>>)>>, <<U(NR, <<2, 3>>), U(ND, <<2>>)>>, <<U(NS, <<2>>), U(NR, <<3>>)>>, <<U(NS, <<2>>), U(NR, <<2, 3>>), U(ND, <<2>>)>>, <<U(<<0, 0, 1, 0, 0, 255>>, <<2>>)>>, <<U(NR, <<>>)>>}
\* here a text tells its value
Vals(u) == LET p == SetToSeq(Chosen(u))
           IN [j \in DOMAIN p |-> LET x == ValueIn(qs, p[j][1], p[j][2]) ls == LeavesOf(x) b == [m \in DOMAIN ls |-> Enc(ls[m])]
                                  IN [n |-> p[j][1], i |-> p[j][2], x |-> Enc(x), empty |-> FALSE, back |-> <<b, b>>]]
\* every chosen value comes back in every meter that has the object and knows its type, and nothing else changes
Returns == \A u \in Uses : Complete(qs, u) =>
  LET r == [k \in 1..2 |-> Received(New[k], Vals(u), k)]
  IN \A k \in 1..2 : \A j \in DOMAIN New[k].obs : LET n == New[k].c.objs[j].n IN \A i \in 2..Len(New[k].obs[j].a) :
       IF <<n, i>> \notin Chosen(u) THEN r[k].obs[j].a[i] = New[k].obs[j].a[i]
       ELSE IF AType(New[k].obs[j], i).k = "choice" /\ ~New[k].obs[j].a[i].on THEN ~r[k].obs[j].a[i].on
       ELSE Octets(r[k].obs[j].a[i]) = Enc(ValueIn(qs, n, i))
\* a value of its own is never replaced by that of a later collection
FirstCounts == \A u \in Uses : Complete(qs, u) => \A p \in Chosen(u) : HasValue(qs[1], p[1], p[2]) => ValueIn(qs, p[1], p[2]) = qs[1].obs[At(qs[1], p[1])].a[p[2]].x
\* the texts and the octets of a value are of one shape
RECURSIVE SameShape(_, _)
SameShape(x, t) == IF IsList(x) THEN ~t.leaf /\ Len(t.l) = Len(x.v) /\ \A i \in DOMAIN x.v : SameShape(x.v[i], t.l[i]) ELSE t.leaf
Shapes == \A k \in 1..2 : \A j \in DOMAIN qs[k].obs : \A i \in 2..Len(qs[k].obs[j].a) : qs[k].obs[j].a[i].on =>
            LET x == qs[k].obs[j].a[i].x ls == LeavesOf(x) IN SameShape(x, TextTree(x, [m \in DOMAIN ls |-> ls[m].c], 1)) /\ Rebuilt(x, [m \in DOMAIN ls |-> Enc(ls[m])], 1) = Enc(x)
Emit == IF Len(hist) >= Steps THEN PrintT(<<"GEN", ToJson([docs |-> TypeDocs, writes |-> hist])>>) ELSE TRUE
ASSUME PrintT(<<"GEN", ToJson([schema |-> [c \in 1..ClassCount |->
            [key |-> Cls(c).key, skip |-> [i \in DOMAIN Attrs(c) |-> i \in Skipped(Cls(c).key)], attrs |-> Attrs(c), meths |-> Meths(c)]]])>>)
ASSUME PrintT(<<"GEN", ToJson([uses |-> SetToSeq(Uses)])>>)
=============================================================================

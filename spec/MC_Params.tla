------------------------------ MODULE MC_Params -----------------------------
(* A meter of a small type: values written and forgotten; what is saved for   *)
(* each association, and what restoring it does to a new meter.              *)
EXTENDS Params, Json
CONSTANTS Steps, Deep
VARIABLES lib, q, hist
vars == <<lib, q, hist>>
view == <<lib, q>>

NA == <<0, 0, 40, 0, 1, 255>>
NB == <<0, 0, 40, 0, 3, 255>>
ND == <<0, 0, 96, 1, 1, 255>>
NR == <<1, 0, 1, 8, 0, 255>>
NS == <<0, 0, 10, 0, 100, 255>>
ClassFor(n) == CASE n \in {NA, NB, Current} -> <<15, 1>> [] n = NR -> <<3, 0>> [] n = NS -> <<9, 0>> [] OTHER -> <<1, 0>>
Count(n) == CASE n \in {NA, NB, Current} -> 9 [] n = NR -> 3 [] OTHER -> 2
Element(n, m) == Comp(2, <<Val(18, BE(ClassFor(n)[1], 2)), Val(17, <<ClassFor(n)[2]>>), Val(9, n),
                           Comp(2, <<Comp(1, [i \in 1..Count(n) |-> Comp(2, <<Val(15, <<i>>), Val(22, <<IF i = 1 THEN 1 ELSE m>>), Val(0, <<>>)>>)]), Comp(1, <<>>)>>)>>)
Listing(s) == Enc(Comp(1, [i \in DOMAIN s |-> Element(s[i][1], s[i][2])]))
Hex(i, s) == [i |-> i, w |-> "hex", s |-> s]
Node(n, as) == [n |-> n, c |-> ClassFor(n)[1], v |-> ClassFor(n)[2], attrs |-> as]
H == [dlms |-> 6, country |-> 7, cver |-> <<3, 0>>, man |-> <<49, 48, 49>>, stype |-> <<9, 1, 65>>, sver |-> <<>>]
T == <<9, 1, 65>>
V == <<1, 0, 5>>
TypeDoc(ns) == [root |-> "Objects", fmt |-> <<3, 0>>, h |-> H, nodes |-> ns]
Both(a, b, rest) == <<Node(NA, <<Hex(2, a)>>), Node(NB, <<Hex(2, b)>>)>> \o rest
Rest == <<Node(ND, <<Hex(2, <<17, 5>>)>>), Node(NR, <<Hex(3, <<2, 2, 15, 255, 22, 30>>)>>)>>
TypeDocs == {TypeDoc(Both(Listing(<< <<NA, 1>>, <<ND, 1>> >>), Listing(<< <<NB, 1>>, <<ND, 3>>, <<NR, 2>> >>), Rest)),
             TypeDoc(Both(Listing(<< <<NA, 1>>, <<NB, 3>>, <<ND, 1>>, <<NR, 3>> >>), Listing(<< <<ND, 3>>, <<NS, 3>>, <<NB, 2>> >>), Rest)),
             TypeDoc(Both(Listing(<< <<ND, 2>> >>), Listing(<< <<NR, 3>>, <<ND, 1>>, <<ND, 3>> >>), <<>>))}
Libs == {LoadOf(d).q : d \in TypeDocs}
ValuesOf(n) ==
  CASE n = ND -> {<<2, <<17, 5>>>>, <<2, <<17, 6>>>>, <<2, <<18, 0, 5>>>>}
    [] n = NR -> {<<2, <<6, 0, 0, 0, 7>>>>, <<3, <<2, 2, 15, 255, 22, 30>>>>, <<3, <<2, 2, 15, 1, 22, 27>>>>}
    [] n = NS -> {<<2, <<1, 0>>>>}
    [] n = NB -> {<<2, Listing(<< <<NB, 1>>, <<ND, 3>> >>)>>, <<2, <<1, 0>>>>}
    [] OTHER -> {}
Init == lib \in Libs /\ q = Meter(lib, T, V) /\ hist = <<>>
Names == {q.c.objs[k].n : k \in DOMAIN q.c.objs}
Write == \E n \in Names : \E x \in ValuesOf(n) : q' = SetOf(q, At(q, n), x[1], x[2]) /\ hist' = Append(hist, [n |-> n, i |-> x[1], s |-> x[2]])
Forget == \E n \in Names \ {NA, NB, Col!LDN} : \E i \in {i \in 2..Len(q.obs[At(q, n)].a) : Attrs(q.obs[At(q, n)].c)[i].t.k # "choice"} :
            q' = [q EXCEPT !.obs[At(q, n)].a[i] = Fresh] /\ hist' = Append(hist, [n |-> n, i |-> i, s |-> <<>>])
Next == Len(hist) < Steps /\ (Write \/ Forget) /\ UNCHANGED lib
Spec == Init /\ [][Next]_vars

Ids == {id \in {1, 3} : CanSave(lib, q, id)}
New == Meter(lib, T, V)
\* what is saved comes back, everything else stays as it was
Returns == \A id \in Ids :
  LET f == SavedFile(lib, q, id) r == Restore(New, f)
  IN /\ r.e = ""
     /\ \A j \in DOMAIN f.nodes : LET nd == f.nodes[j] IN \A a \in DOMAIN nd.attrs : Octets(r.q.obs[At(r.q, nd.n)].a[nd.attrs[a].i]) = nd.attrs[a].s
     /\ \A k \in DOMAIN New.obs : \A i \in DOMAIN New.obs[k].a :
          (\A j \in DOMAIN f.nodes : f.nodes[j].n = New.c.objs[k].n => \A a \in DOMAIN f.nodes[j].attrs : f.nodes[j].attrs[a].i # i) => r.q.obs[k].a[i] = New.obs[k].a[i]
\* what is saved was written, by one who may
Allowed == \A id \in Ids : LET f == SavedFile(lib, q, id) l == ObjList(lib, At(lib, AssociationName(id))) IN
  \A j \in DOMAIN f.nodes : \A a \in DOMAIN f.nodes[j].attrs : MayWrite(l, f.nodes[j].n, f.nodes[j].attrs[a].i)
\* with every object in the fullest list, a meter as it came has nothing to save
Pure == hist = <<>> => \A id \in Ids : LET l == ObjList(lib, FullestOf(lib)) IN SavedNodes(lib, q, id) = <<>>
\* putting a file back where it comes from changes nothing; the formats agree
Same == \A id \in Ids : LET f == SavedFile(lib, q, id)
                            two == [f EXCEPT !.fmt = <<2, 1>>, !.nodes = [j \in DOMAIN f.nodes |-> [f.nodes[j] EXCEPT !.c = 1, !.v = 0]]] IN
  /\ Restore(q, f).q = q /\ Restore(Restore(New, f).q, f).q = Restore(New, f).q
  /\ Restore(New, [f EXCEPT !.fmt = <<3, 1>>]) = Restore(New, f) /\ Restore(New, two).q.c = Restore(New, f).q.c
\* a file for another maker, type or branch changes no value
Foreign == \A id \in Ids : LET f == SavedFile(lib, q, id) IN
  \A h \in {[f.h EXCEPT !.man = <<75, 80, 90>>], [f.h EXCEPT !.stype = <<9, 1, 66>>], [f.h EXCEPT !.sver = << <<0, <<1, 0, 6>> >> >>], [f.h EXCEPT !.sver = << <<0, <<1, 1, 0>> >> >>], [f.h EXCEPT !.dlms = 5]} :
    LET r == Restore(New, [f EXCEPT !.h = h]) IN r.e = "ValueError" /\ r.q.obs = New.obs
Emit == IF Len(hist) >= Steps THEN PrintT(<<"GEN", ToJson([doc |-> CHOOSE d \in TypeDocs : LoadOf(d).q = lib, writes |-> hist])>>) ELSE TRUE
ASSUME PrintT(<<"GEN", ToJson([schema |-> [c \in 1..ClassCount |->
            [key |-> Cls(c).key, skip |-> [i \in DOMAIN Attrs(c) |-> i \in Skipped(Cls(c).key)], attrs |-> Attrs(c), meths |-> Meths(c)]]])>>)
=============================================================================

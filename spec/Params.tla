-------------------------------- MODULE Params ------------------------------
(* Parameter files of a meter: what was set on a meter, apart from its type,  *)
(* is saved for the objects an association may write, and put into a meter   *)
(* again; files of older formats name the values, and the objects, of their  *)
(* own.                                                                      *)
EXTENDS Library

\* a meter of a type: a copy of the library's collection with its identification
Meter(lib, t, v) == LET c == CopyOf(lib) IN [c EXCEPT !.c = Col!ServerVer(Col!ServerType(@, t, FALSE).c, 0, v, FALSE).c]

\* ---- saving
AssociationName(id) == <<0, 0, 40, 0, id, 255>>
HasAssociation(lib, id) == Col!Has(lib.c, AssociationName(id)) /\ HasList(lib, At(lib, AssociationName(id)))
ModesFor(l, n) == LET e == l[CHOOSE i \in DOMAIN l : l[i].n = n /\ \A j \in 1..(i - 1) : l[j].n # n]
                  IN [as |-> {e.as[j] : j \in DOMAIN e.as}, first |-> e]
\* an attribute the association may write when there is no security policy
MayWrite(l, n, i) == LET e == ModesFor(l, n).first j == CHOOSE j \in DOMAIN e.as : e.as[j][1] = i /\ \A k \in 1..(j - 1) : e.as[k][1] # i IN e.as[j][2] \in {2, 3}
ModesKnown(l, q) == \A x \in DOMAIN l : Col!Has(q.c, l[x].n) /\ \A i \in 2..Len(q.obs[At(q, l[x].n)].a) : <<>> # SelectSeq(ModesFor(l, l[x].n).first.as, LAMBDA a : a[1] = i)
EmptyArray(x) == x.t = 1 /\ x.v = <<>>
Differs(lib, q, n, i) == LET c == q.obs[At(q, n)].a[i] o == lib.obs[At(lib, n)].a IN c.on /\ (~o[i].on \/ Octets(o[i]) # Octets(c))
Parameter(lib, l, q, n, i) ==
  LET k == At(q, n) IN /\ Attrs(q.obs[k].c)[i].c # 2 /\ Differs(lib, q, n, i) /\ ~EmptyArray(q.obs[k].a[i].x) /\ MayWrite(l, n, i)
ParametersOf(lib, l, q, n) ==
  Cat([i \in 1..(Len(q.obs[At(q, n)].a) - 1) |-> IF Parameter(lib, l, q, n, i + 1) THEN <<[i |-> i + 1, w |-> "hex", s |-> Octets(q.obs[At(q, n)].a[i + 1])]>> ELSE <<>>])
\* saved: an object for every element of the list that has something to say; nothing: no file
SavedNodes(lib, q, id) ==
  LET l == ObjList(lib, At(lib, AssociationName(id)))
  IN SelectSeq([j \in DOMAIN l |-> [n |-> l[j].n, c |-> -1, v |-> -1, attrs |-> ParametersOf(lib, l, q, l[j].n)]], LAMBDA nd : nd.attrs # <<>>)
SavedFile(lib, q, id) ==
  [root |-> "Objects", fmt |-> <<4, 0>>, nodes |-> SavedNodes(lib, q, id),
   h |-> [dlms |-> q.c.dlms, country |-> q.c.country, cver |-> q.c.cver, man |-> q.c.man, stype |-> q.c.stype, sver |-> SetToSeq(q.c.sver)]]
CanSave(lib, q, id) == HasAssociation(lib, id) /\ LET l == ObjList(lib, At(lib, AssociationName(id))) IN ModesKnown(l, lib) /\ ModesKnown(l, q)

\* ---- restoring: the identification is confirmed (what is not known yet is taken), then values are set
\* h: dlms, country -1: absent; others <<>>
RECURSIVE Confirm(_, _), Each3(_, _), Each4(_, _)
Step(c, f) == IF c.e # "" THEN c
              ELSE CASE f[1] = "dlms" -> IF f[2] = -1 THEN c ELSE Col!Once(c.c, "dlms", 0, f[2])
                     [] f[1] = "country" -> IF f[2] = -1 THEN c ELSE Col!Once(c.c, "country", -1, f[2])
                     [] f[1] = "ver" -> Col!ServerVer(c.c, f[2], f[3], FALSE)
                     [] OTHER -> IF f[2] = <<>> THEN c ELSE Col!Once(c.c, f[1], <<>>, f[2])
Confirm(c, s) == IF s = <<>> THEN c ELSE Confirm(Step(c, s[1]), SubSeq(s, 2, Len(s)))
Claims(h) == << <<"dlms", h.dlms>>, <<"country", h.country>>, <<"cver", h.cver>>, <<"man", h.man>>, <<"stype", h.stype>> >>
             \o [i \in DOMAIN h.sver |-> <<"ver", h.sver[i][1], h.sver[i][2]>>]
\* attribute i = -1: not a number, which ends the restoring
RECURSIVE Values(_, _, _)
Values(q, k, s) ==
  IF s = <<>> THEN [q |-> q, e |-> ""]
  ELSE IF s[1].i = -1 THEN [q |-> q, e |-> "ValueError"]
  ELSE Values(IF s[1].w = "hex" THEN SetOf(q, k, s[1].i, s[1].s) ELSE q, k, SubSeq(s, 2, Len(s)))
\* objects that are not there are passed over (3) or end the restoring (4)
Each3(q, s) ==
  IF s = <<>> THEN [q |-> q, e |-> ""]
  ELSE IF s[1].n = <<>> THEN [q |-> q, e |-> "ValueError"]
  ELSE IF ~Col!Has(q.c, s[1].n) THEN Each3(q, SubSeq(s, 2, Len(s)))
  ELSE LET r == Values(q, At(q, s[1].n), s[1].attrs) IN IF r.e # "" THEN r ELSE Each3(r.q, SubSeq(s, 2, Len(s)))
Each4(q, s) ==
  IF s = <<>> THEN [q |-> q, e |-> ""]
  ELSE IF s[1].n = <<>> \/ ~Col!Has(q.c, s[1].n) THEN [q |-> q, e |-> "ValueError"]
  ELSE LET r == Values(q, At(q, s[1].n), s[1].attrs) IN IF r.e # "" THEN r ELSE Each4(r.q, SubSeq(s, 2, Len(s)))
Restore(q, doc) ==
  IF doc.root # "Objects" THEN [q |-> q, e |-> "ValueError"]
  ELSE LET c == Confirm([c |-> q.c, e |-> ""], Claims(doc.h)) n == [q EXCEPT !.c = c.c]
       IN IF c.e # "" THEN [q |-> n, e |-> c.e]
          ELSE CASE doc.fmt \in {<<2, 0>>, <<2, 1>>, <<2, 2>>} -> [q |-> Thrice(Nodes3, n, doc.nodes), e |-> ""]
                 [] doc.fmt \in {<<3, 1>>, <<3, 2>>} -> Each3(n, doc.nodes)
                 [] doc.fmt = <<4, 0>> -> Each4(n, doc.nodes)
                 [] OTHER -> [q |-> n, e |-> "VersionError"]
=============================================================================

------------------------------ MODULE MC_Library ----------------------------
(* Files written node by node; what they load to, what is saved of that, and  *)
(* copies.  Small trees of type files.                                       *)
EXTENDS Library, Json
CONSTANTS Steps, Deep
VARIABLES doc, got, hist
vars == <<doc, got, hist>>
view == doc

NA == <<0, 0, 40, 0, 1, 255>>
NB == <<0, 0, 40, 0, 2, 255>>
ND == <<0, 0, 96, 1, 1, 255>>
NR == <<1, 0, 1, 8, 0, 255>>
NS == <<0, 0, 10, 0, 100, 255>>
ClassFor(n) == CASE n \in {NA, NB, Current} -> <<15, 1>> [] n = NR -> <<3, 0>> [] n = NS -> <<9, 0>> [] OTHER -> <<1, 0>>
Count(n) == CASE n \in {NA, NB, Current} -> 9 [] n = NR -> 3 [] OTHER -> 2
\* an element of a list: every attribute with one mode
Element(n, m) == Comp(2, <<Val(18, BE(ClassFor(n)[1], 2)), Val(17, <<ClassFor(n)[2]>>), Val(9, n),
                           Comp(2, <<Comp(1, [i \in 1..Count(n) |-> Comp(2, <<Val(15, <<i>>), Val(22, <<IF i = 1 THEN 1 ELSE m>>), Val(0, <<>>)>>)]), Comp(1, <<>>)>>)>>)
Listing(s) == Enc(Comp(1, [i \in DOMAIN s |-> Element(s[i][1], s[i][2])]))
ListNo(k) == CASE k = 1 -> Listing(<< <<NA, 1>>, <<ND, 1>>, <<NR, 1>> >>) [] k = 2 -> Listing(<< <<ND, 3>>, <<NA, 1>> >>) [] k = 3 -> Listing(<< <<Col!LDN, 1>>, <<NA, 1>>, <<NB, 1>>, <<NR, 4>> >>)
               [] k = 4 -> Listing(<< <<NB, 1>>, <<NS, 1>>, <<ND, 1>> >>)
Lists == {ListNo(k) : k \in 1..4}
Hex(i, s) == [i |-> i, w |-> "hex", s |-> s]
ValuesOf(n) ==
  CASE n \in {NA, NB} -> {Hex(2, l) : l \in Lists}
    [] n = ND -> {Hex(2, <<17, 5>>), Hex(2, <<18, 1>>), Hex(2, <<9, 1, 65>>), Hex(3, <<17, 5>>), [i |-> 2, w |-> "tag", s |-> <<18>>], [i |-> 2, w |-> "junk", s |-> <<>>]}
    [] n = NR -> {Hex(2, <<6, 0, 0, 0, 7>>), Hex(3, <<2, 2, 15, 255, 22, 30>>), Hex(3, <<2, 1, 15, 0>>), [i |-> 2, w |-> "tag", s |-> <<6>>]}
    [] n = NS -> {Hex(2, <<1, 0>>)}
    [] OTHER -> {}
Node(n, c, v) == [n |-> n, c |-> c, v |-> v, attrs |-> <<>>]
Nodes == {Node(n, ClassFor(n)[1], ClassFor(n)[2]) : n \in {NA, NB, ND, NR}} \cup {Node(ND, 1, -1), Node(ND, -1, 0), Node(<<>>, 1, 0), Node(NR, 8, 0)} \cup (IF Deep THEN {Node(NS, 9, 0)} ELSE {})
H == [dlms |-> 6, country |-> 7, cver |-> <<3, 0>>, man |-> <<49, 48, 49>>, stype |-> <<9, 1, 65>>, sver |-> << <<0, <<1, 2>> >> >>]
Begun == {<<>>, <<[Node(NA, 15, 1) EXCEPT !.attrs = <<Hex(2, ListNo(1))>>]>>, <<[Node(NA, 15, 1) EXCEPT !.attrs = <<Hex(2, ListNo(3))>>], [Node(NB, 15, 1) EXCEPT !.attrs = <<Hex(2, ListNo(4))>>]>>}
\* got: what the file loads to
Init == \E b \in Begun : LET d == [root |-> "Objects", fmt |-> <<3, 0>>, h |-> H, nodes |-> b] IN doc = d /\ got = LoadOf(d).q /\ hist = <<>>
Latest == Len(doc.nodes)
Written(d, h) == doc' = d /\ got' = LoadOf(d).q /\ hist' = Append(hist, h)
AddNode == \E nd \in Nodes : Written([doc EXCEPT !.nodes = Append(@, nd)], "n")
AddAttr == Latest > 0 /\ \E a \in ValuesOf(doc.nodes[Latest].n) : Written([doc EXCEPT !.nodes[Latest].attrs = Append(@, a)], "a")
Next == Len(hist) < Steps /\ (AddNode \/ AddAttr)
Spec == Init /\ [][Next]_vars

Loaded == got
OneEach(q) == \A i, j \in DOMAIN q.c.objs : q.c.objs[i].n = q.c.objs[j].n => i = j
\* every object is of the class its place in the map says; values are of their types
Sound == LET q == Loaded IN OneEach(q) /\ Len(q.obs) = Len(q.c.objs)
                         /\ \A k \in DOMAIN q.obs : Cls(q.obs[k].c).id = q.c.objs[k].c /\ \A i \in DOMAIN q.obs[k].a : q.obs[k].a[i].on => Fits(AType(q.obs[k], i), q.obs[k].a[i].x)
\* spoilt nodes, at the beginning and in the end, spoil nothing else
Spoilt == <<Node(<<>>, 1, 0), Node(ND, -1, 0)>> \o (IF Col!Has(got.c, NR) THEN <<>> ELSE <<[Node(NR, 8, 0) EXCEPT !.attrs = <<Hex(2, <<17, 1>>)>>]>>)
Harmless == LoadOf([doc EXCEPT !.nodes = Spoilt \o @ \o Spoilt]).q.obs = got.obs
\* the lists are in what is saved
ListsSaved(q) == \A j \in DOMAIN Asses(q) : 2 \in ReadOnly(q, q.c.objs[Asses(q)[j]].n)
Saved == LET q == Loaded f == FileOf(q) r == LoadOf(f) IN
  Savable(q) /\ ListsSaved(q) /\ Asses(q) # <<>> =>
    /\ r.e = ""
    /\ \A i \in DOMAIN f.nodes : \A j \in DOMAIN f.nodes[i].attrs :
         LET nd == f.nodes[i] a == nd.attrs[j] IN a.w = "hex" => Octets(r.q.obs[At(r.q, nd.n)].a[a.i]) = a.s
    /\ LET l == Listed(q) IN \A i \in DOMAIN l : Col!Has(r.q.c, l[i].n) /\ LET x == Col!At(r.q.c, l[i].n) y == Col!At(q.c, l[i].n) IN <<x.c, x.v>> = <<y.c, y.v>>
    /\ Savable(r.q) /\ LET g == FileOf(r.q).nodes IN {g[i] : i \in DOMAIN g} = {f.nodes[i] : i \in DOMAIN f.nodes}
CopyLaw == LET q == Loaded IN Copyable(q) =>
             LET k == CopyOf(q) IN /\ Copyable(k) /\ FullestOf(k) = FullestOf(q) /\ k.obs[FullestOf(q)].a[2].on = (\E i \in DOMAIN ObjList(q, FullestOf(q)) : ObjList(q, FullestOf(q))[i].n = q.c.objs[FullestOf(q)].n)
                                   /\ CopyOf(k) = k
CopyOnlyIf == LET q == Loaded IN Copyable(q) => LET l == ObjList(q, FullestOf(q)) IN (\E i \in DOMAIN l : l[i].n = q.c.objs[FullestOf(q)].n) => CopyLaw

\* ---- small trees
F(s) == s \o TypSuffix
T1 == <<48, 57, 48, 49, 54, 49>>
Tree(fs) == [mans |-> << <<49, 48, 49>>, <<88>> >>, types |-> << << <<49, 48, 49>>, T1>>, << <<88>>, T1>> >>, files |-> [i \in DOMAIN fs |-> << <<49, 48, 49>>, T1, fs[i]>>]]
Vers == {<<49, 46, 48>>, <<49, 46, 48, 46, 50>>, <<49, 46, 48, 46, 55>>, <<49, 46, 51, 46, 48>>, <<48, 46, 48, 46, 52, 48>>}
Trees == {Tree(SetToSeq({F(v) : v \in s} \cup {<<114, 46, 109, 100>>})) : s \in SUBSET Vers}
ASSUME \A t \in Trees : \A v \in Vers \cup {<<49, 46, 48, 46, 53>>, <<50, 46, 48, 46, 48>>, <<48, 46, 48, 46, 51>>} :
  LET s == Suiting(t, <<49, 48, 49>>, <<9, 1, 97>>, Vs!Parse(v)) all == FilesOf(t, <<49, 48, 49>>, <<9, 1, 97>>)
  IN /\ s \subseteq all /\ (F(v) \in all => s = {F(v)}) /\ \A f \in s : Vs!SameBranch(Vs!Parse(v), VersionOf(f))
     /\ (s = {} => \A f \in all : ~Vs!SameBranch(Vs!Parse(v), VersionOf(f)) \/ Vs!Later(VersionOf(f), Vs!Parse(v)))
     /\ Suiting(t, <<88>>, <<9, 1, 97>>, Vs!Parse(v)) = {} /\ Suiting(t, <<49, 48, 49>>, <<9, 1, 98>>, Vs!Parse(v)) = {}
ASSUME PrintT(<<"GEN", ToJson([schema |-> [c \in 1..ClassCount |->
            [key |-> Cls(c).key, skip |-> [i \in DOMAIN Attrs(c) |-> i \in Skipped(Cls(c).key)], attrs |-> Attrs(c), meths |-> Meths(c)]]])>>)
Emit == IF Len(hist) >= Steps THEN PrintT(<<"GEN", ToJson([doc |-> doc])>>) ELSE TRUE
=============================================================================

------------------------------- MODULE MC_Views -----------------------------
(* Every list over a small set of objects, grown one by one: laws of groups, *)
(* patterns, selection, sorting and trees.                                   *)
EXTENDS Views
CONSTANTS Max, As, Bs, Cs, Ds, Es, Fs, Many
Up255 == 0..255
VARIABLES objs, nm

Thing(id, n, c, t) == [id |-> id, n |-> n, c |-> c, t |-> t, at |-> <<[i |-> 1, r |-> 1, w |-> 0], [i |-> 2, r |-> id % 2, w |-> (id \div 2) % 2], [i |-> 3, r |-> 0, w |-> 0]>>]
Pool == <<Thing(1, <<0, 0, 1, 0, 0, 255>>, 8, <<67>>), Thing(2, <<1, 0, 1, 8, 0, 255>>, 3, <<65>>), Thing(3, <<1, 0, 2, 8, 0, 255>>, 3, <<65>>),
          Thing(4, <<0, 0, 1, 0, 1, 255>>, 1, <<66, 1>>), Thing(5, <<7, 0, 0, 0, 1, 255>>, 1, <<66>>), Thing(6, <<2, 0, 0, 0, 1, 255>>, 1, <<>>), Thing(7, <<3, 0, 0, 0, 1, 255>>, 3, <<>>)>>
Parts == {<<97>>, <<48>>, <<40, 48, 45, 49, 41>>, <<40, 55, 41>>, <<49>>}
Dot(a, b) == a \o <<46>> \o b
Pats == {<<>>} \cup Parts \cup {a \o <<46, 98, 46>> \o c : a \in Parts, c \in {<<99>>, <<49>>, <<40, 48, 44, 50, 41>>, <<100>>}}
K(k, v, g, p) == [k |-> k, v |-> v, g |-> g, p |-> p]
SomeKeys == {<<>>} \cup {<<K("class", c, "", <<>>)>> : c \in {1, 3, 8, 99}} \cup {<<K("medium", 0, g, <<>>)>> : g \in {"Abstract", "Electricity", "Gas", "Water"}}
         \cup {<<K("pattern", 0, "", p)>> : p \in {p \in Pats : PatternOk(Pattern(p))}} \cup {<<K("group", 0, "ClockObjects", <<>>), K("class", 8, "", <<>>)>>}
Modes == {<<>>, <<"l">>, <<"n">>, <<"c">>, <<"c", "l">>, <<"c", "n">>, <<"n", "c">>, <<"n", "l">>}
Trees == {<<"m">>, <<"g">>, <<"c">>, <<"c", "m">>, <<"g", "m">>, <<"m", "c">>, <<"c", "g", "m">>}

Init == objs = <<>> /\ nm = <<0, 0, 0, 0, 0, 0>>
More == nm = <<0, 0, 0, 0, 0, 0>> /\ Len(objs) < Max /\ \E i \in 1..Many : (\A j \in DOMAIN objs : objs[j].id # i) /\ objs' = Append(objs, Pool[i]) /\ UNCHANGED nm
Name == objs = <<>> /\ \E a \in As, c \in Cs, d \in Ds : \E b \in Bs, e \in Es, f \in Fs : nm' = <<a, b, c, d, e, f>> /\ UNCHANGED objs
Next == More \/ (nm = <<0, 0, 0, 0, 0, 0>> /\ Name)
Spec == Init /\ [][Next]_<<objs, nm>>

GroupInMedium == objs # <<>> \/
                 /\ Medium(nm[1]) \in {"Reserved", "Other"} => Group(nm) = "Other"
                 \* the groups of different media are different
                 /\ \A a \in As : Medium(a) # Medium(nm[1]) => LET g == Group([nm EXCEPT ![1] = a]) IN g = "Other" \/ g # Group(nm)
                 \* group B matters in the abstract medium only, and there for the information security, image and association objects
                 /\ \A b \in Bs : Group([nm EXCEPT ![2] = b]) = Group(nm) \/ (Medium(nm[1]) = "Abstract" /\ nm[3] \in 40..44)
Members(s) == {s[i].id : i \in DOMAIN s}
Selection == nm # <<0, 0, 0, 0, 0, 0>> \/ \A k \in SomeKeys : LET s == Filtered(objs, k) IN
               /\ Members(s) \subseteq Members(objs) /\ Filtered(s, k) = s
               /\ k = <<>> => s = objs
               /\ \A k2 \in {<<K("class", 3, "", <<>>)>>, <<K("class", 1, "", <<>>)>>} :
                    (k # <<>> /\ k[1].k = "class") => Members(Filtered(objs, k \o k2)) = Members(s) \cup Members(Filtered(objs, k2))
               /\ Keys(k, "class") = {} => Filtered(objs, k \o <<K("class", 3, "", <<>>)>>) = Filtered(s, <<K("class", 3, "", <<>>)>>)
Sorting == nm # <<0, 0, 0, 0, 0, 0>> \/ \A m \in Modes : LET s == InOrder(objs, m) IN Sorted(objs, m, s) /\ InOrder(s, m) = s
\* all objects in the tree once; a branch holds exactly the objects with its label; the levels are those asked
TreesHold == nm # <<0, 0, 0, 0, 0, 0>> \/ \A m \in Trees : LET t == Tree(objs, m) IN
               /\ Len(t) = Len(objs) /\ Members(t) = Members(objs)
               /\ \A i \in DOMAIN t : LET x == Pool[t[i].id] IN t[i].path = [k \in DOMAIN m |-> Label(m[Len(m) + 1 - k], x)]
               \* branches are in one piece
               /\ \A i, j \in DOMAIN t : \A k \in DOMAIN m : (i < j /\ SubSeq(t[i].path, 1, k) = SubSeq(t[j].path, 1, k)) => \A h \in i..j : SubSeq(t[h].path, 1, k) = SubSeq(t[i].path, 1, k)
Attributes == nm # <<0, 0, 0, 0, 0, 0>> \/ \A m \in {<<"c">>, <<"g", "m">>}, af \in SUBSET {"l", "r", "w"} :
                LET g == AttrTree(objs, <<>>, m, <<"l">>, af) IN
                /\ g.e = "" /\ \A i \in DOMAIN g.t : g.t[i].at # <<>> /\ ("l" \in af => \A k \in DOMAIN g.t[i].at : g.t[i].at[k] # 1)
                /\ af = {} => Len(g.t) = Len(objs)
                /\ \A h \in SUBSET af : Members(AttrTree(objs, <<>>, m, <<"l">>, af).t) \subseteq Members(AttrTree(objs, <<>>, m, <<"l">>, h).t)
Patterns == (objs = <<>> /\ nm = <<0, 0, 0, 0, 0, 0>>) => \A p \in Pats : \A i \in 1..Many :
              /\ PatternOk(Pattern(p)) /\ p = <<97>> => Matches(Pattern(p), Pool[i].n)
              /\ PatternOk(Pattern(p)) => Matches(Pattern(p), Pool[i].n) = Matches(Pattern(Without(p, {})), Pool[i].n)
=============================================================================

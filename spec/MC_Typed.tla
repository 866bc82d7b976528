------------------------------ MODULE MC_Typed ------------------------------
(* Objects of every class set, cleared, reset and copied, with values of the *)
(* type of the attribute and of the types of the others.                     *)
EXTENDS Typed, Json
CONSTANTS Steps, Samples, Pick
VARIABLES o, src, hist
vars == <<o, src, hist>>
view == <<o, src, Len(hist)>>

Nth(s, k) == s[1 + (k % Len(s))]
DTs == << <<7, 232, 2, 29, 4, 23, 59, 59, 99, 128, 0, 255>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 128, 0, 0>>, <<7, 208, 1, 1, 255, 0, 0, 0, 0, 0, 180, 0>> >>
Numeral(t, n) == LET w == FixedLen[t] IN BE(IF n < 0 THEN n + 256 ^ w ELSE n, w)
LeafVal(t, k) ==
  CASE t \in {0} -> Val(t, <<>>)
    [] t = 3 -> Val(t, <<k % 2>>)
    [] t = 4 -> Nth(<<Bits(0, <<>>), Bits(3, <<160>>), Bits(9, <<255, 128>>)>>, k)
    [] t \in {9, 10, 12} -> Val(t, Nth(<< <<>>, <<65>>, <<66, 48, 49>>, <<1, 0, 2>> >>, k))
    [] t = 25 -> Val(t, Nth(DTs, k))
    [] t = 26 -> Val(t, SubSeq(Nth(DTs, k), 1, 5))
    [] t = 27 -> Val(t, SubSeq(Nth(DTs, k), 6, 9))
    [] t = 13 -> Val(t, Nth(<< <<0>>, <<18>>, <<153>> >>, k))
    [] OTHER -> LET w == FixedLen[t] IN Val(t, Nth(<<Zeros(w), [i \in 1..w |-> 255], [i \in 1..w |-> IF i = 1 THEN 128 ELSE i], [i \in 1..w |-> i]>>, k))
RECURSIVE Some(_, _)
Some(T, k) ==
  CASE T.k = "leaf" -> LeafVal(T.t, k)
    [] T.k = "ranged" -> LET p == Nth(T.r, k) IN Val(T.t, Numeral(T.t, p[1 + (k % 2)]))
    [] T.k = "size" -> LET n == Nth(T.r, k)[1] IN IF T.t = 4 THEN Bits(n, [i \in 1..OctetsFor(n) |-> k % 256]) ELSE Val(T.t, [i \in 1..n |-> (k + i) % 256])
    [] T.k = "oneof" -> Val(T.t, Nth(T.o, k))
    [] T.k = "dt" -> Val(9, Nth(DTs, k))
    [] T.k = "d" -> Val(9, SubSeq(Nth(DTs, k), 1, 5))
    [] T.k = "tm" -> Val(9, SubSeq(Nth(DTs, k), 6, 9))
    [] T.k = "version" -> Val(9, Nth(<< <<49, 46, 48>>, <<50, 46, 49, 48>> >>, k))
    [] T.k = "struct" -> Comp(2, [i \in DOMAIN T.sub |-> Some(T.sub[i], k + i)])
    [] T.k = "anystruct" -> Comp(2, Nth(<< <<>>, <<LeafVal(17, k), LeafVal(9, k)>>, <<Comp(1, <<LeafVal(18, k)>>)>> >>, k))
    [] T.k = "array" -> Comp(1, IF T.sub[1].k = "leaf" THEN [i \in 1..(k % 3) |-> Some(T.sub[1], k + i)] ELSE IF k % 2 = 0 THEN <<>> ELSE <<Some(T.sub[1], k)>>)
    [] T.k = "anyarray" -> Comp(1, Nth(<< <<>>, <<LeafVal(17, k), LeafVal(17, k + 1)>>, <<Comp(2, <<LeafVal(3, k)>>)>>, <<Comp(1, <<>>)>> >>, k))
    [] T.k = "choice" -> Some(Nth(T.sub, k), k)
    [] T.k = "switch" -> LET i == 1 + (k % Len(T.r)) IN Comp(2, <<Val(T.sub[1].t, Numeral(T.sub[1].t, T.r[i][1])), Some(T.sub[i + 1], k)>>)
    [] T.k = "oid" -> IF k % 2 = 0 THEN Val(9, OidOctets(<<2, 16, 756, 5, 8, 1, Nth(<<1, 0, 7>>, k)>>)) ELSE Comp(2, [i \in DOMAIN T.sub |-> Val(T.sub[i].t, BE(<<2, 16, 756, 5, 8, 2, 1>>[i], FixedLen[T.sub[i].t]))])

Ops(x) == {i \in DOMAIN x.a : i > 1 /\ i \notin Skipped(Cls(x.c).key)}
Candidates(x, i) == {Enc(Some(Attrs(x.c)[i].t, k)) : k \in 0..(Samples - 1)}
                    \cup {LET e == Enc(Some(Attrs(x.c)[i].t, 1)) IN SubSeq(e, 1, Len(e) - 1)}
                    \cup {Enc(Some(Attrs(x.c)[IF i = Len(x.a) THEN 1 ELSE i + 1].t, 1))}
Ln == <<0, 0, 40, 0, 1, 255>>
Init == \E c \in Pick : o = NewObj(c, Ln) /\ src = NewObj(c, Ln) /\ hist = <<>>
Note(op, i, s) == hist' = Append(hist, [op |-> op, i |-> i, s |-> s])
Set == \E i \in Ops(o) : \E s \in Candidates(o, i) : o' = SetAttr(o, i, s).o /\ Note("set", i, s) /\ UNCHANGED src
SetOther == \E i \in Ops(src) : \E s \in Candidates(src, i) : Accepts(AType(src, i), src.a[i], s) /\ src' = SetAttr(src, i, s).o /\ Note("other", i, s) /\ UNCHANGED o
Clear == \E i \in Ops(o) : o' = ClearAttr(o, i).o /\ Note("clear", i, <<>>) /\ UNCHANGED src
Reset == \E i \in Ops(o) : LET z == ResetTo(o, i) IN z # {} /\ o' = SetAttr(o, i, CHOOSE s \in z : TRUE).o /\ Note("reset", i, <<>>) /\ UNCHANGED src
Copy == o' = CopyObj(o, src).o /\ Note("copy", 0, <<>>) /\ UNCHANGED src
Values == o' = CopyValues(o, src).o /\ Note("values", 0, <<>>) /\ UNCHANGED src
Next == Len(hist) < Steps /\ (Set \/ SetOther \/ Clear \/ Reset \/ Copy \/ Values)
Spec == Init /\ [][Next]_vars

SameValue(T, x, y) == IF T.k = "oid" THEN AsStructure(T, x).x = AsStructure(T, y).x ELSE x = y
\* what is held is of the attribute's type, of the type it is held to now, and reads back
HoldsFit == \A i \in DOMAIN o.a : LET c == o.a[i] IN c.on => Fits(AType(o, i), c.x) /\ Fits(TypeOf(AType(o, i), c), c.x) /\ LET r == Read(Octets(c)) IN r.ok /\ r.val = c.x /\ r.rest = <<>>
ParametersFit == \A i \in DOMAIN o.m : o.m[i].on => Fits(Meths(o.c)[i].t, o.m[i].x)
\* an emptied cell is as new
EmptyIsFresh == \A i \in DOMAIN o.a : ~o.a[i].on => o.a[i] = Fresh
\* ordinary values belong to the types
Ordinary == \A i \in DOMAIN o.a : Attrs(o.c)[i].z # <<>> => Accepts(AType(o, i), Fresh, Attrs(o.c)[i].z)
\* the type held to takes no value the attribute's type does not
Narrower == \A i \in DOMAIN o.a : \A k \in 0..(Samples - 1) : o.a[i].nt # {} => LET t == TypeOf(AType(o, i), o.a[i]) x == Some(t, k) IN Fits(t, x) /\ Fits(AType(o, i), x)
CopyIsEqual == LET r == CopyObj(o, src)
               IN r.e = "" => /\ \A i \in 2..Len(o.a) : src.a[i].on /\ (Attrs(o.c)[i].c # 2 \/ Attrs(o.c)[i].t.k = "choice") => SameValue(Attrs(o.c)[i].t, r.o.a[i].x, src.a[i].x)
                             /\ CopyObj(r.o, src) = r
\* into an object as new everything is copied
CopyToNew == LET r == CopyValues(NewObj(o.c, Ln), o) IN r.e = "" /\ \A i \in 2..Len(o.a) : o.a[i].on => SameValue(Attrs(o.c)[i].t, r.o.a[i].x, o.a[i].x)

AllClasses == 1..ClassCount
Emit == Len(hist) = Steps => PrintT(<<"GEN", ToJson([key |-> Cls(o.c).key, ops |-> hist])>>)
ASSUME PrintT(<<"GEN", ToJson([key |-> "", schema |-> [c \in 1..ClassCount |->
            [key |-> Cls(c).key, skip |-> [i \in DOMAIN Attrs(c) |-> i \in Skipped(Cls(c).key)], attrs |-> Attrs(c), meths |-> Meths(c)]]])>>)
=============================================================================

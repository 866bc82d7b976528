-------------------------------- MODULE Types -------------------------------
(* The data types of the attributes and of the parameters of methods, as the *)
(* Blue Book and the companion standard give them.  A type is                *)
(*   k: kind, t: tag, r: pairs of bounds, sub: types inside, o: octet strings *)
(* Fits says which values of the common data types belong to a type, Held    *)
(* what a cell of the type holds afterwards, Narrow what it takes next: a    *)
(* cell of a choice keeps the type of the first value until it is cleared.   *)
EXTENDS Axdr

Ty(k, t, r, sub, o) == [k |-> k, t |-> t, r |-> r, sub |-> sub, o |-> o]
Leaf(t) == Ty("leaf", t, <<>>, <<>>, <<>>)
Ranged(t, r) == Ty("ranged", t, r, <<>>, <<>>)      \* the number lies in one of the ranges
OfSize(t, r) == Ty("size", t, r, <<>>, <<>>)        \* so many octets, or bits
OneOf(t, o) == Ty("oneof", t, <<>>, <<>>, o)
DateTimeOctets == Ty("dt", 9, <<>>, <<>>, <<>>)
DateOctets == Ty("d", 9, <<>>, <<>>, <<>>)
TimeOctets == Ty("tm", 9, <<>>, <<>>, <<>>)
VersionText == Ty("version", 9, <<>>, <<>>, <<>>)    \* "major.minor", not 0.0
Struct(sub) == Ty("struct", 2, <<>>, sub, <<>>)
AnyStruct == Ty("anystruct", 2, <<>>, <<>>, <<>>)
ArrayOf(e) == Ty("array", 1, <<>>, <<e>>, <<>>)
\* elements told apart by the first of their fields (0: by all of them)
KeyedBy(n, e) == Ty("array", 1, <<n>>, <<e>>, <<>>)
AnyArray == Ty("anyarray", 1, <<>>, <<>>, <<>>)
Choice(sub) == Ty("choice", -1, <<>>, sub, <<>>)
\* two elements, the first tells the type of the second: cases <<number, type>>
Switch(e, cases) == Ty("switch", 2, [i \in DOMAIN cases |-> <<cases[i][1], cases[i][1]>>], <<e>> \o [i \in DOMAIN cases |-> cases[i][2]], <<>>)
\* object identifier: an octet string of arcs, or a structure
OidOf(s) == Ty("oid", -1, <<>>, s.sub, <<>>)

Signed == {5, 15, 16, 20}
RECURSIVE UnsignedOf(_)
UnsignedOf(c) == IF c = <<>> THEN 0 ELSE 256 * UnsignedOf(SubSeq(c, 1, Len(c) - 1)) + c[Len(c)]
NumberOf(x) == LET u == UnsignedOf(x.c) IN IF x.t \in Signed /\ x.c[1] > 127 THEN u - 256 ^ Len(x.c) ELSE u
InRange(r, n) == \E i \in DOMAIN r : r[i][1] <= n /\ n <= r[i][2]
DigitsOnly(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
IsVersion(c) == LET dots == {i \in DOMAIN c : c[i] = 46}
                IN /\ Cardinality(dots) = 1
                   /\ LET d == CHOOSE i \in dots : TRUE IN DigitsOnly(SubSeq(c, 1, d - 1)) /\ DigitsOnly(SubSeq(c, d + 1, Len(c)))
                   /\ \E i \in DOMAIN c : c[i] \in 49..57

\* arcs of an object identifier after the first octet: <<>> if cut short
RECURSIVE ArcsFrom(_, _, _)
ArcsFrom(s, n, acc) == IF s = <<>> THEN (IF n = 0 THEN [ok |-> TRUE, a |-> acc] ELSE [ok |-> FALSE, a |-> <<>>])
                       ELSE IF n > 100000 THEN [ok |-> FALSE, a |-> <<>>]
                       ELSE IF s[1] >= 128 THEN ArcsFrom(Tail(s), 128 * n + s[1] - 128, acc)
                       ELSE ArcsFrom(Tail(s), 0, Append(acc, 128 * n + s[1]))
Arcs(c) == IF c = <<>> THEN [ok |-> FALSE, a |-> <<>>] ELSE ArcsFrom(Tail(c), 0, <<c[1] \div 40, c[1] % 40>>)
RECURSIVE Base128(_)
Base128(n) == IF n < 128 THEN <<n>> ELSE LET h == Base128(n \div 128) IN [h EXCEPT ![Len(h)] = @ + 128] \o <<n % 128>>
OidOctets(a) == <<40 * a[1] + a[2]>> \o Cat([i \in 1..(Len(a) - 2) |-> Base128(a[i + 2])])
\* an arc as a value of its type, <<>> if the number is too big
ArcVal(t, n) == IF n >= 256 ^ FixedLen[t.t] THEN <<>> ELSE <<Val(t.t, BE(n, FixedLen[t.t]))>>
AsStructure(T, x) ==
  IF x.t = 2 THEN [ok |-> TRUE, x |-> x]
  ELSE LET r == Arcs(x.c)
       IN IF x.t # 9 \/ ~r.ok \/ Len(r.a) # Len(T.sub) \/ \E i \in DOMAIN T.sub : ArcVal(T.sub[i], r.a[i]) = <<>> THEN [ok |-> FALSE, x |-> x]
          ELSE [ok |-> TRUE, x |-> Comp(2, [i \in DOMAIN T.sub |-> ArcVal(T.sub[i], r.a[i])[1]])]
AsOctets(x) == IF x.t = 9 THEN (IF Arcs(x.c).ok THEN Val(9, OidOctets(Arcs(x.c).a)) ELSE x)
               ELSE Val(9, OidOctets([i \in DOMAIN x.v |-> NumberOf(x.v[i])]))

KeyOf(T, x) == IF T.r = <<0>> THEN x ELSE x.v[1]
Distinct(T, x) == IF T.r = <<>> THEN TRUE ELSE \A i, j \in DOMAIN x.v : i < j => KeyOf(T, x.v[i]) # KeyOf(T, x.v[j])
RECURSIVE Fits(_, _)
Fits(T, x) ==
  CASE T.k = "leaf" -> x.t = T.t
    [] T.k = "ranged" -> x.t = T.t /\ InRange(T.r, NumberOf(x))
    [] T.k = "size" -> x.t = T.t /\ InRange(T.r, IF T.t = 4 THEN x.n ELSE Len(x.c))
    [] T.k = "oneof" -> x.t = T.t /\ \E i \in DOMAIN T.o : T.o[i] = x.c
    [] T.k = "dt" -> x.t = 9 /\ ValidDateTime(x.c)
    [] T.k = "d" -> x.t = 9 /\ Len(x.c) = 5 /\ ValidDate(x.c)
    [] T.k = "tm" -> x.t = 9 /\ Len(x.c) = 4 /\ ValidTime(x.c)
    [] T.k = "version" -> x.t = 9 /\ IsVersion(x.c)
    [] T.k = "struct" -> x.t = 2 /\ Len(x.v) = Len(T.sub) /\ \A i \in DOMAIN T.sub : Fits(T.sub[i], x.v[i])
    [] T.k = "anystruct" -> x.t = 2
    [] T.k = "array" -> x.t = 1 /\ (\A i \in DOMAIN x.v : Fits(T.sub[1], x.v[i])) /\ Distinct(T, x)
    [] T.k = "anyarray" -> x.t = 1
    [] T.k = "choice" -> \E i \in DOMAIN T.sub : Fits(T.sub[i], x)
    [] T.k = "switch" -> /\ x.t = 2 /\ Len(x.v) = 2 /\ Fits(T.sub[1], x.v[1])
                         /\ \E i \in DOMAIN T.r : T.r[i][1] = NumberOf(x.v[1]) /\ Fits(T.sub[i + 1], x.v[2])
    [] T.k = "oid" -> LET s == AsStructure(T, x) IN s.ok /\ Fits(Struct(T.sub), s.x)

\* type of a cell made for any value of a tag
Generic(t) == CASE t = 1 -> AnyArray [] t = 2 -> AnyStruct [] OTHER -> Leaf(t)
RECURSIVE Narrow(_, _)
Narrow(T, x) ==
  CASE T.k = "choice" -> LET i == CHOOSE j \in DOMAIN T.sub : Fits(T.sub[j], x) /\ \A h \in 1..(j - 1) : ~Fits(T.sub[h], x) IN Narrow(T.sub[i], x)
    [] T.k = "struct" -> Struct([i \in DOMAIN T.sub |-> Narrow(T.sub[i], x.v[i])])
    [] T.k = "anystruct" -> Struct([i \in DOMAIN x.v |-> Narrow(Generic(x.v[i].t), x.v[i])])
    [] T.k = "anyarray" -> IF x.v = <<>> THEN T ELSE ArrayOf(Generic(x.v[1].t))
    [] OTHER -> T

\* a cell of type T: on: holds a value, x: the value, nt: {} or the narrower type it is held to
NoVal == Val(-1, <<>>)
Fresh == [on |-> FALSE, x |-> NoVal, nt |-> {}]
TypeOf(T, c) == IF c.nt = {} THEN T ELSE CHOOSE n \in c.nt : TRUE
Read(s) == Dec(CdtF, s)
HeldOf(T, c, x) == IF T.k # "oid" THEN x
                   ELSE IF c.on THEN (IF c.x.t = 2 THEN AsStructure(T, x).x ELSE AsOctets(x))
                   ELSE IF x.t = 9 THEN AsOctets(x) ELSE x
\* setting a cell to octets: what follows the value is ignored
Accepts(T, c, s) == LET r == Read(s) IN r.ok /\ Fits(TypeOf(T, c), r.val)
Put(T, c, s) == LET x == Read(s).val n == Narrow(TypeOf(T, c), x)
                IN [on |-> TRUE, x |-> HeldOf(T, c, x), nt |-> IF n = T THEN {} ELSE {n}]
Octets(c) == IF c.on THEN Enc(c.x) ELSE <<>>
TagOf(T, c) == IF c.on THEN c.x.t ELSE T.t
=============================================================================

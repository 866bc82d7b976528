-------------------------------- MODULE Parts ------------------------------
(* Types put together from parts as cosem_pdu ("pdu") and useful_types ("ut") *)
(* offer them: integers, booleans, null, octet strings with and without a     *)
(* size, sequences, optional elements, sequences of a type and choices by     *)
(* tag.  A type is [k, w, sg, tags, sub]; a value [c, n, v]: contents of a    *)
(* leaf, tag of a choice, the parts.                                          *)
EXTENDS Texts, Ber

Type(k, w, sg, tags, sub) == [k |-> k, w |-> w, sg |-> sg, tags |-> tags, sub |-> sub]
IntT(w, sg) == Type("int", w, sg, <<>>, <<>>)
BoolT == Type("bool", 1, FALSE, <<>>, <<>>)
NullT == Type("null", 0, FALSE, <<>>, <<>>)
DontT == Type("dont", 0, FALSE, <<>>, <<>>)
OctT(w) == Type("oct", w, FALSE, <<>>, <<>>)
VarT == Type("var", -1, FALSE, <<>>, <<>>)
OptT(T) == Type("opt", -1, FALSE, <<>>, <<T>>)
OfT(T) == Type("of", -1, FALSE, <<>>, <<T>>)
SeqT(Ts) == Type("seq", -1, FALSE, <<>>, Ts)
ChoiceT(tags, Ts) == Type("choice", -1, FALSE, tags, Ts)
DataT == Type("data", -1, FALSE, <<>>, <<>>)
\* the choice of all data types of cosem_pdu
DataTags == <<0, 1, 2, 3, 5, 6, 9, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255>>
DataTypes == <<NullT, OfT(DataT), OfT(DataT), BoolT, IntT(4, TRUE), IntT(4, FALSE), VarT, IntT(1, TRUE), IntT(1, TRUE), IntT(2, TRUE),
               IntT(1, FALSE), IntT(2, FALSE), IntT(8, TRUE), IntT(8, FALSE), IntT(1, FALSE), OctT(4), OctT(8), OctT(12), OctT(5), OctT(4), DontT>>
Open(T) == IF T.k = "data" THEN ChoiceT(DataTags, DataTypes) ELSE T
HasTag(T, n) == \E i \in DOMAIN T.tags : T.tags[i] = n
ByTag(T, n) == T.sub[CHOOSE i \in DOMAIN T.tags : T.tags[i] = n]

Leaf(c) == [c |-> c, n |-> -1, v |-> <<>>]
Node(v) == [c |-> <<>>, n |-> -1, v |-> v]
Pick(n, x) == [c |-> <<>>, n |-> n, v |-> <<x>>]
LeafKinds == {"int", "bool", "null", "dont", "oct", "var"}

\* ---------------------------------------------------------------- octets
RECURSIVE Put(_, _)
Put(T0, x) ==
  LET T == Open(T0)
  IN CASE T.k = "var" -> LenEnc(Len(x.c)) \o x.c
       [] T.k = "opt" -> IF x.v = <<>> THEN <<0>> ELSE <<1>> \o Put(T.sub[1], x.v[1])
       [] T.k = "of" -> LenEnc(Len(x.v)) \o Cat([i \in 1..Len(x.v) |-> Put(T.sub[1], x.v[i])])
       [] T.k = "seq" -> Cat([i \in 1..Len(x.v) |-> Put(T.sub[i], x.v[i])])
       [] T.k = "choice" -> <<x.n>> \o Put(ByTag(T, x.n), x.v[1])
       [] OTHER -> x.c
\* reading from the front of s: why is "", "cut" or "tag"; m octets are used
Fail(why) == [why |-> why, x |-> Leaf(<<>>), m |-> 0]
Have(x, m) == [why |-> "", x |-> x, m |-> m]
\* types whose values may take no octets at all
RECURSIVE Weightless(_)
Weightless(T) == T.k \in {"null", "dont"} \/ (T.k = "seq" /\ \A i \in DOMAIN T.sub : Weightless(T.sub[i]))
RECURSIVE Get(_, _, _), GetAll(_, _, _, _, _)
Get(f, T0, s) ==
  LET T == Open(T0)
  IN CASE T.k \in {"var", "of"} ->
            LET l == LenDec(s)  n == MagVal(l.mag)
            IN IF ~l.ok THEN (IF s # <<>> /\ s[1] = 128 THEN Fail("tag") ELSE Fail("cut"))
               ELSE IF T.k = "var" THEN (IF n > Len(s) - l.used THEN Fail("cut") ELSE Have(Leaf(SubSeq(s, l.used + 1, l.used + n)), l.used + n))
               ELSE GetAll(f, Fill(T.sub[1], IF Weightless(T.sub[1]) THEN n ELSE Min2(n, Len(s) + 1)), s, l.used, <<>>)
       [] T.k = "opt" ->
            IF s = <<>> THEN Fail("cut") ELSE IF s[1] = 0 THEN Have(Node(<<>>), 1)
            ELSE LET r == Get(f, T.sub[1], Tail(s)) IN IF r.why # "" THEN r ELSE Have(Node(<<r.x>>), r.m + 1)
       [] T.k = "seq" -> GetAll(f, T.sub, s, 0, <<>>)
       [] T.k = "choice" ->
            IF s = <<>> THEN Fail("cut") ELSE IF ~HasTag(T, s[1]) THEN Fail("tag")
            ELSE LET r == Get(f, ByTag(T, s[1]), Tail(s)) IN IF r.why # "" THEN r ELSE Have(Pick(s[1], r.x), r.m + 1)
       [] OTHER -> IF Len(s) < T.w THEN Fail("cut")
                   ELSE Have(Leaf(IF T.k = "bool" /\ f = "ut" THEN (IF s[1] = 0 THEN <<0>> ELSE <<1>>) ELSE Take(s, T.w)), T.w)
GetAll(f, Ts, s, m, acc) ==
  IF Ts = <<>> THEN Have(Node(acc), m)
  ELSE LET r == Get(f, Head(Ts), Drop(s, m)) IN IF r.why # "" THEN r ELSE GetAll(f, Tail(Ts), s, m + r.m, Append(acc, r.x))
Errors(f, why) == IF why = "" THEN {""} ELSE IF why = "tag" \/ f = "ut" THEN {"ValueError"} ELSE {"BufferError"}

\* --------------------------------------------------------------- defaults
RECURSIVE HasDefault(_), DefaultOf(_)
HasDefault(T0) == LET T == Open(T0) IN
  CASE T.k = "choice" -> HasTag(T, 0) /\ HasDefault(ByTag(T, 0)) [] T.k = "seq" -> \A i \in DOMAIN T.sub : HasDefault(T.sub[i]) [] OTHER -> TRUE
DefaultOf(T0) == LET T == Open(T0) IN
  CASE T.k = "choice" -> Pick(0, DefaultOf(ByTag(T, 0)))
    [] T.k = "seq" -> Node([i \in DOMAIN T.sub |-> DefaultOf(T.sub[i])])
    [] T.k \in {"opt", "of"} -> Node(<<>>)
    [] T.k = "var" -> Leaf(<<>>)
    [] OTHER -> Leaf(Zeros(T.w))

\* ------------------------------------------------------------------ texts
Unread == [ok |-> FALSE, x |-> Leaf(<<>>)]
Got1(x) == [ok |-> TRUE, x |-> x]
Fits(T, b) == IF T.sg THEN FitsSigned(b, T.w) ELSE FitsUnsigned(b, T.w)
IntOf(T, b) == IF Fits(T, b) THEN Got1(Leaf(Twos(b, T.w))) ELSE Unread
NumberIn(T, x) == FromTwos(x.c, T.sg)
RECURSIVE Bare(_)
Bare(s) == IF s # <<>> /\ White(s[1]) THEN Bare(Tail(s)) ELSE IF s # <<>> /\ White(s[Len(s)]) THEN Bare(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) == LET p == FindFrom(s, sep, 1) IN IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o SplitAt(SubSeq(s, p + 1, Len(s)), sep)
TrueTexts == {<<49>>, <<84, 114, 117, 101>>}
FalseTexts == {<<48>>, <<70, 97, 108, 115, 101>>}
RECURSIVE OfText(_, _, _)
OfText(f, T0, s) ==
  LET T == Open(T0)
      both(Ts, texts) == LET rs == [i \in DOMAIN Ts |-> OfText(f, Ts[i], texts[i])]
                         IN IF \E i \in DOMAIN rs : ~rs[i].ok THEN Unread ELSE Got1(Node([i \in DOMAIN rs |-> rs[i].x]))
  IN CASE T.k = "int" -> LET r == ParseInt(Bare(s)) IN IF r.ok THEN IntOf(T, r.x) ELSE Unread
       [] T.k = "bool" -> IF s \in TrueTexts THEN Got1(Leaf(<<1>>)) ELSE IF s \in FalseTexts THEN Got1(Leaf(<<0>>)) ELSE Unread
       [] T.k \in {"null", "dont"} -> Got1(Leaf(<<>>))
       [] T.k \in {"oct", "var"} -> LET c == Utf8Enc(s) IN IF T.k = "oct" /\ Len(c) # T.w THEN Unread ELSE Got1(Leaf(c))
       [] T.k = "opt" -> IF s = <<>> THEN Got1(Node(<<>>)) ELSE both(T.sub, <<s>>)
       [] T.k = "of" -> LET parts == SplitAt(SelectSeq(s, LAMBDA c : c # 32), 59) IN both(Fill(T.sub[1], Len(parts)), parts)
       [] T.k = "seq" -> LET parts == SplitAt(s, 32) IN IF Len(parts) = Len(T.sub) THEN both(T.sub, parts) ELSE Unread
       [] T.k = "choice" -> LET p == FindFrom(s, IF f = "ut" THEN 32 ELSE 58, 1)
                                tag == SubSeq(s, 1, p - 1)
                                n == ParseInt(tag).x
                            IN IF p = 0 \/ ~AllDigits(tag) \/ Len(n.m) > 1 \/ ~HasTag(T, PadTo(n.m, 1)[1]) THEN Unread
                               ELSE LET m == PadTo(n.m, 1)[1]  r == OfText(f, ByTag(T, m), SubSeq(s, p + 1, Len(s)))
                                    IN IF r.ok THEN Got1(Pick(m, r.x)) ELSE Unread
\* what leaves and optional leaves show
NullName(f, k) == IF k = "dont" THEN <<68, 111, 110, 116, 67, 97, 114, 101>> ELSE IF f = "ut" THEN <<78, 117, 108, 108>> ELSE <<78, 85, 76, 76>>
ShownLeaf(f, T, x) ==
  CASE T.k = "int" -> Dec10(NumberIn(T, x))
    [] T.k = "bool" -> IF x.c = <<0>> THEN <<70, 97, 108, 115, 101>> ELSE <<84, 114, 117, 101>>
    [] T.k \in {"null", "dont"} -> NullName(f, T.k)
    [] OTHER -> HexText(x.c)
Showable(T) == T.k \in LeafKinds \/ (T.k = "opt" /\ T.sub[1].k \in LeafKinds)
Shown(f, T, x) == IF T.k = "opt" THEN (IF x.v = <<>> THEN NullName(f, "null") ELSE ShownLeaf(f, T.sub[1], x.v[1])) ELSE ShownLeaf(f, T, x)
=============================================================================

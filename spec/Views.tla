-------------------------------- MODULE Views -------------------------------
(* Views of a list of objects: selection by class, medium, group and name    *)
(* pattern, sorting, trees.  Object: [id, n, c, t] (id, name, class, shown   *)
(* name as code points).  Texts are code points.                             *)
EXTENDS Groups, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- name patterns
Digit(t) == t # <<>> /\ \A i \in DOMAIN t : t[i] \in 48..57
RECURSIVE Val(_)
\* up to 4 digits matter, more only with leading zeros
Val(t) == IF t = <<>> THEN 0 ELSE LET v == Val(SubSeq(t, 1, Len(t) - 1)) IN IF v > 999 THEN 999 ELSE v * 10 + t[Len(t)] - 48
Octet(t) == Digit(t) /\ Val(t) <= 255
RECURSIVE CutAt(_, _, _)
\* parts of t between separators c, at most k of them used
CutAt(t, c, k) == LET at == {i \in DOMAIN t : t[i] = c} IN
                  IF at = {} \/ k = 0 THEN <<t>>
                  ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN <<SubSeq(t, 1, i - 1)>> \o CutAt(SubSeq(t, i + 1, Len(t)), c, k - 1)
Without(t, s) == SelectSeq(t, LAMBDA x : x \notin s)
Count(t, c) == Cardinality({i \in DOMAIN t : t[i] = c})
NoGroup == [ok |-> FALSE, any |-> FALSE, s |-> {}]
Range1(t) == IF Count(t, 45) = 0 THEN (IF Octet(t) THEN [ok |-> TRUE, any |-> FALSE, s |-> {Val(t)}] ELSE NoGroup)
             ELSE IF Count(t, 45) > 1 THEN NoGroup
             ELSE LET p == CutAt(t, 45, 1) IN IF Octet(p[1]) /\ Octet(p[2]) THEN [ok |-> TRUE, any |-> FALSE, s |-> Val(p[1])..Val(p[2])] ELSE NoGroup
\* group i of a pattern: its letter, a number, or a list of numbers and ranges
GroupOfText(i, t) ==
  IF t = <<96 + i>> THEN [ok |-> TRUE, any |-> TRUE, s |-> {}]
  ELSE IF Digit(t) THEN (IF Octet(t) THEN [ok |-> TRUE, any |-> FALSE, s |-> {Val(t)}] ELSE NoGroup)
  ELSE IF Len(t) >= 2 /\ t[1] = 40 /\ t[Len(t)] = 41
       THEN LET p == CutAt(Without(t, {40, 41}), 44, 999)
                g == [j \in DOMAIN p |-> Range1(Without(p[j], {32}))]
            IN IF \A j \in DOMAIN g : g[j].ok THEN [ok |-> TRUE, any |-> FALSE, s |-> UNION {g[j].s : j \in DOMAIN g}] ELSE NoGroup
       ELSE NoGroup
\* groups not written match everything
Pattern(t) == LET p == CutAt(t, 46, 5) IN [i \in 1..6 |-> IF i <= Len(p) THEN GroupOfText(i, p[i]) ELSE [ok |-> TRUE, any |-> TRUE, s |-> {}]]
PatternOk(p) == \A i \in 1..6 : p[i].ok
Matches(p, n) == \A i \in 1..6 : p[i].any \/ n[i] \in p[i].s

\* ---------------------------------------------------------------- selection
\* keys: [k |-> "class"|"medium"|"group"|"pattern", v |-> number, g |-> group, p |-> text]; one of each kind given has to fit
Keys(ks, k) == {ks[i] : i \in {i \in DOMAIN ks : ks[i].k = k}}
Fits(ks, x) == /\ Keys(ks, "class") # {} => \E y \in Keys(ks, "class") : y.v = x.c
               /\ Keys(ks, "medium") # {} => \E y \in Keys(ks, "medium") : y.g = Medium(x.n[1])
               /\ Keys(ks, "group") # {} => \E y \in Keys(ks, "group") : y.g = Group(x.n)
               /\ Keys(ks, "pattern") # {} => \E y \in Keys(ks, "pattern") : Matches(Pattern(y.p), x.n)
Filtered(objs, ks) == SelectSeq(objs, LAMBDA x : Fits(ks, x))

\* ---------------------------------------------------------------- sorting
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
KeyLess(m, x, y) == CASE m = "l" -> LexLess(x.n, y.n) [] m = "n" -> LexLess(x.t, y.t) [] m = "c" -> x.c < y.c
RECURSIVE Before(_, _, _)
\* by the first letter, equal ones by the next; -1, 0, 1
Before(ms, x, y) == IF ms = <<>> THEN 0 ELSE IF KeyLess(ms[1], x, y) THEN -1 ELSE IF KeyLess(ms[1], y, x) THEN 1 ELSE Before(SubSeq(ms, 2, Len(ms)), x, y)
Place0(s, id) == CHOOSE i \in DOMAIN s : s[i].id = id
\* out is objs sorted: same objects, neighbours in order, equal ones as they came
Sorted(objs, ms, out) ==
  /\ Len(out) = Len(objs) /\ {out[i].id : i \in DOMAIN out} = {objs[i].id : i \in DOMAIN objs}
  /\ \A i \in 1..Len(out) - 1 : LET b == Before(ms, out[i], out[i + 1]) IN b = -1 \/ (b = 0 /\ Place0(objs, out[i].id) < Place0(objs, out[i + 1].id))
RECURSIVE PutIn(_, _, _)
PutIn(s, x, ms) == IF s = <<>> THEN <<x>> ELSE IF Before(ms, x, s[Len(s)]) = -1 THEN Append(PutIn(SubSeq(s, 1, Len(s) - 1), x, ms), s[Len(s)]) ELSE Append(s, x)
RECURSIVE InOrder(_, _)
InOrder(objs, ms) == IF objs = <<>> THEN <<>> ELSE PutIn(InOrder(SubSeq(objs, 1, Len(objs) - 1), ms), objs[Len(objs)], ms)

\* ---------------------------------------------------------------- trees
\* label of an object at a level
Label(m, x) == CASE m = "m" -> Medium(x.n[1]) \o (IF Medium(x.n[1]) = "Reserved" THEN ToString(x.n[1]) ELSE "") [] m = "g" -> Group(x.n) [] m = "c" -> ToString(x.c)
RECURSIVE Firsts(_, _)
Firsts(s, m) == IF s = <<>> THEN <<>> ELSE LET p == Firsts(SubSeq(s, 1, Len(s) - 1), m) l == Label(m, s[Len(s)])
                                           IN IF \E i \in DOMAIN p : p[i] = l THEN p ELSE Append(p, l)
RECURSIVE Tree(_, _), Grow(_, _, _)
\* the last letter is the outermost level; labels in order of appearance; a tree is told as its leaves with their paths
Tree(objs, ms) == IF ms = <<>> THEN [i \in DOMAIN objs |-> [path |-> <<>>, id |-> objs[i].id]] ELSE Grow(objs, ms, Firsts(objs, ms[Len(ms)]))
Grow(objs, ms, ls) ==
  IF ls = <<>> THEN <<>>
  ELSE LET m == ms[Len(ms)]
           sub == Tree(SelectSeq(objs, LAMBDA x : Label(m, x) = ls[1]), SubSeq(ms, 1, Len(ms) - 1))
       IN [i \in DOMAIN sub |-> [path |-> <<ls[1]>> \o sub[i].path, id |-> sub[i].id]] \o Grow(objs, ms, SubSeq(ls, 2, Len(ls)))

\* ---------------------------------------------------------------- attributes
\* x.at: attributes of the object as [i, r, w]; r, w: 1, 0 or -1 (not in the association's list)
Shown(x, af) == SelectSeq(x.at, LAMBDA a : /\ "l" \in af => a.i # 1
                                           /\ "r" \in af => a.r = 1
                                           /\ "w" \in af => a.w = 1)
Listed(x, af) == af \cap {"r", "w"} = {} \/ \A k \in DOMAIN x.at : x.at[k].r # -1 \/ ("l" \in af /\ x.at[k].i = 1)
AttrTree(objs, ks, ms, sorts, af) ==
  LET s == InOrder(Filtered(objs, ks), sorts)
      of(id) == CHOOSE x \in {objs[i] : i \in DOMAIN objs} : x.id = id
      t == Tree(s, ms)
      all == [i \in DOMAIN t |-> [path |-> t[i].path, id |-> t[i].id, at |-> LET a == Shown(of(t[i].id), af) IN [k \in DOMAIN a |-> a[k].i]]]
  IN IF \E i \in DOMAIN s : ~Listed(s[i], af) THEN [e |-> "ValueError", t |-> <<>>] ELSE [e |-> "", t |-> SelectSeq(all, LAMBDA y : y.at # <<>>)]
=============================================================================

------------------------------- MODULE Template -----------------------------
(* Templates: the values of chosen attributes as text, for the meters of      *)
(* several types.                                                            *)
(* Text of a value: [leaf, s, l]: a text, or a list of texts of its elements.*)
(* What a scalar shows and what is read from a text is said elsewhere (Num,   *)
(* Dates, Texts): here texts, and octets read from them (<<>>: refused), come  *)
(* as they are.                                                              *)
EXTENDS Library

TextLeaf(s) == [leaf |-> TRUE, s |-> s, l |-> <<>>]
TextList(l) == [leaf |-> FALSE, s |-> <<>>, l |-> l]
IsList(x) == x.t \in {1, 2}
RECURSIVE LeavesOf(_), TextTree(_, _, _), Rebuilt(_, _, _)
\* the scalars of a value from left to right
LeavesOf(x) == IF IsList(x) THEN Cat([i \in DOMAIN x.v |-> LeavesOf(x.v[i])]) ELSE <<x>>
Ahead(v, i) == FoldLeft(LAMBDA a, j : a + Len(LeavesOf(v[j])), 0, [j \in 1..(i - 1) |-> j])
TextTree(x, ls, at) ==
  IF ~IsList(x) THEN TextLeaf(ls[at]) ELSE TextList([i \in DOMAIN x.v |-> TextTree(x.v[i], ls, at + Ahead(x.v, i))])
\* the octets of the value read from the texts of its scalars
Rebuilt(x, ls, at) ==
  IF ~IsList(x) THEN ls[at] ELSE <<x.t>> \o LenEnc(Len(x.v)) \o Cat([i \in DOMAIN x.v |-> Rebuilt(x.v[i], ls, at + Ahead(x.v, i))])
Legible(ls) == \A i \in DOMAIN ls : ls[i] # <<>>

\* ---- the file: every chosen attribute once, with the value of the first collection that has one
\* used: sequence of [n, s (sequence of attributes)]
Chosen(used) == UNION {{<<used[k].n, used[k].s[j]>> : j \in DOMAIN used[k].s} : k \in DOMAIN used}
HasValue(q, n, i) == Col!Has(q.c, n) /\ q.obs[At(q, n)].a[i].on
Source(qs, n, i) == LET s == SelectSeq([k \in DOMAIN qs |-> k], LAMBDA k : HasValue(qs[k], n, i)) IN IF s = <<>> THEN 0 ELSE s[1]
Complete(qs, used) == /\ \A p \in Chosen(used) : Source(qs, p[1], p[2]) # 0
                      /\ \A k \in DOMAIN used : \E j \in DOMAIN qs : Col!Has(qs[j].c, used[k].n)
ValueIn(qs, n, i) == LET q == qs[Source(qs, n, i)] IN q.obs[At(q, n)].a[i].x

\* ---- reading: a value for every collection that has the object, if it can be read there
\* w: [n, i, x (octets the text was made of), back (for each collection the octets of its scalars read from their texts)]
\* an attribute of choice without a value does not know what the text is of, but takes an empty text
\* as the value its type starts with
Receive(q, w, back) ==
  IF ~Col!Has(q.c, w.n) \/ w.i \notin 2..Len(q.obs[At(q, w.n)].a) THEN q
  ELSE LET k == At(q, w.n) x == Read(w.x).val
       IN IF (AType(q.obs[k], w.i).k = "choice" /\ ~q.obs[k].a[w.i].on /\ ~w.empty) \/ ~Legible(back) THEN q ELSE SetOf(q, k, w.i, Rebuilt(x, back, 1))
RECURSIVE Received(_, _, _), ReceivedOctets(_, _)
Received(q, ws, k) == IF ws = <<>> THEN q ELSE Received(Receive(q, ws[1], ws[1].back[k]), SubSeq(ws, 2, Len(ws)), k)
\* octets instead of texts
ReceivedOctets(q, ws) == IF ws = <<>> THEN q ELSE ReceivedOctets(SetOf(q, At(q, ws[1].n), ws[1].i, ws[1].x), SubSeq(ws, 2, Len(ws)))
UsedIn(objs) == {<<objs[j].n, UNION {{objs[m].attrs[a].i : a \in DOMAIN objs[m].attrs} : m \in {m \in DOMAIN objs : objs[m].n = objs[j].n}}>> : j \in DOMAIN objs}
=============================================================================

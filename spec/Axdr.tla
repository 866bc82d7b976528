-------------------------------- MODULE Axdr -------------------------------
(* The tag-length-value coding of the COSEM data types.  A value is          *)
(*   [t |-> tag, c |-> contents octets, n |-> number of bits or -1,          *)
(*    v |-> sequence of element values]                                      *)
(* and a flavour says how one of the project's three codecs differs:         *)
(*   tags - the types it knows; same - elements of an array have one type;   *)
(*   bool - a true boolean is 01; dates - dates and times must be possible;  *)
(*   text - visible-string is ASCII and utf8-string well formed;             *)
(*   pad - the unused bits of a bit-string's last octet are written as zeros. *)
EXTENDS Ber, Utf8, Cal

Val(t, c) == [t |-> t, c |-> c, n |-> -1, v |-> <<>>]
Comp(t, vs) == [t |-> t, c |-> <<>>, n |-> -1, v |-> vs]
Bits(n, c) == [t |-> 4, c |-> c, n |-> n, v |-> <<>>]

FixedLen == [t \in {0, 3, 5, 6, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255} |->
             CASE t \in {0, 255} -> 0
               [] t \in {3, 13, 15, 17, 22} -> 1
               [] t \in {16, 18} -> 2
               [] t \in {5, 6, 23, 27} -> 4
               [] t = 26 -> 5
               [] t \in {20, 21, 24} -> 8
               [] t = 25 -> 12]
Sized == {9, 10, 12}
Complex == {1, 2}

CdtF == [tags |-> {0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27},
         same |-> TRUE, bool |-> TRUE, dates |-> TRUE, text |-> FALSE, pad |-> FALSE]
PduF == [tags |-> {0, 1, 2, 3, 5, 6, 9, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255},
         same |-> FALSE, bool |-> FALSE, dates |-> FALSE, text |-> FALSE, pad |-> FALSE]
UtF == [tags |-> {0, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 255},
        same |-> FALSE, bool |-> TRUE, dates |-> FALSE, text |-> TRUE, pad |-> TRUE]

OctetsFor(bits) == (bits + 7) \div 8

RECURSIVE Enc(_)
Enc(x) ==
  <<x.t>> \o
  CASE x.t \in Complex -> LenEnc(Len(x.v)) \o Cat([i \in 1..Len(x.v) |-> Enc(x.v[i])])
    [] x.t = 4 -> LenEnc(x.n) \o x.c
    [] x.t \in Sized -> LenEnc(Len(x.c)) \o x.c
    [] OTHER -> x.c

\* contents acceptable for a type of fixed size or text
Contents(F, t, c) ==
  CASE t = 3 /\ F.bool -> [ok |-> TRUE, c |-> IF c[1] = 0 THEN <<0>> ELSE <<1>>]
    [] t = 25 /\ F.dates -> [ok |-> ValidDateTime(c), c |-> c]
    [] t = 26 /\ F.dates -> [ok |-> ValidDate(c), c |-> c]
    [] t = 27 /\ F.dates -> [ok |-> ValidTime(c), c |-> c]
    [] t = 10 /\ F.text -> [ok |-> AsciiOk(c), c |-> c]
    [] t = 12 /\ F.text -> [ok |-> Utf8Dec(c).ok, c |-> c]
    [] OTHER -> [ok |-> TRUE, c |-> c]

\* a refusal: compact = because a compact array (tag 13h) is met where a value begins
Nope == [ok |-> FALSE, val |-> Val(-1, <<>>), rest |-> <<>>, compact |-> FALSE]
Got(ok, val, rest) == [ok |-> ok, val |-> val, rest |-> rest, compact |-> FALSE]
\* the first n bits of octets
ClearPad(n, c) == IF n % 8 = 0 THEN c ELSE [c EXCEPT ![Len(c)] = @ - (@ % (2 ^ (8 - (n % 8))))]

RECURSIVE Dec(_, _), DecSeq(_, _, _, _, _)
Dec(F, s) ==
  IF s = <<>> \/ s[1] \notin F.tags THEN [Nope EXCEPT !.compact = s # <<>> /\ s[1] = 19]
  ELSE LET t == s[1]  b == Tail(s)
       IN IF t \in DOMAIN FixedLen
          THEN LET k == FixedLen[t]
               IN IF Len(b) < k THEN Nope
                  ELSE LET c == Contents(F, t, Take(b, k)) IN Got(c.ok, Val(t, c.c), Drop(b, k))
          ELSE LET l == LenDec(b)
                   n == MagVal(l.mag)
                   d == Drop(b, l.used)
                   k == OctetsFor(n)
               IN IF ~l.ok THEN Nope
                  ELSE IF t \in Complex THEN DecSeq(F, t, n, d, <<>>)
                  ELSE IF Len(d) < (IF t = 4 THEN k ELSE n) THEN Nope
                  ELSE IF t = 4 THEN Got(TRUE, Bits(n, IF F.pad THEN ClearPad(n, Take(d, k)) ELSE Take(d, k)), Drop(d, k))
                  ELSE LET c == Contents(F, t, Take(d, n)) IN Got(c.ok, Val(t, c.c), Drop(d, n))
DecSeq(F, t, n, s, acc) ==
  IF n = Len(acc) THEN Got(TRUE, Comp(t, acc), s)
  ELSE LET r == Dec(F, s)
       IN IF ~r.ok THEN [Nope EXCEPT !.compact = r.compact]
          ELSE IF t = 1 /\ F.same /\ acc # <<>> /\ r.val.t # acc[1].t THEN Nope
          ELSE DecSeq(F, t, n, r.rest, Append(acc, r.val))

\* what Enc may be applied to
RECURSIVE WellFormed(_, _)
WellFormed(F, x) ==
  /\ x.t \in F.tags
  /\ CASE x.t \in Complex -> /\ \A i \in 1..Len(x.v) : WellFormed(F, x.v[i])
                             /\ (x.t = 1 /\ F.same) => \A i \in 1..Len(x.v) : x.v[i].t = x.v[1].t
       [] x.t = 4 -> Len(x.c) = OctetsFor(x.n) /\ (F.pad => ClearPad(x.n, x.c) = x.c)
       [] x.t \in Sized -> Contents(F, x.t, x.c).ok
       [] OTHER -> Len(x.c) = FixedLen[x.t] /\ Contents(F, x.t, x.c) = [ok |-> TRUE, c |-> x.c]
=============================================================================

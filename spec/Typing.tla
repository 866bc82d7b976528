------------------------------- MODULE Typing -------------------------------
(* A value typed by hand, letter by letter: what the line is after each      *)
(* letter.  A letter that makes the line no value and no beginning of one is *)
(* refused and the line stays; dates, times and names get their separators   *)
(* by themselves, octets their spaces.  The value itself does not change     *)
(* until it is set.  Secrets are shown as octets, letters or stars.          *)
(* k.k: "int" (k.t its tag), "scaled" (k.p digits after the point kept),     *)
(* "float", "bits", "text", "octets", "t", "d", "dt", "ln", "enum" (k.names).*)
EXTENDS Names
D == INSTANCE Dates

Pt == 46
SepsOf(k) == CASE k = "t" -> <<58, 58, 46>> [] k = "d" -> <<46, 46, 45>> [] k = "dt" -> <<46, 46, 45, 32, 58, 58, 46, 32>>
IsHexLetter(x) == x \in 48..57 \cup 97..102 \cup 65..70
HexVal(x) == IF x < 58 THEN x - 48 ELSE IF x < 71 THEN x - 55 ELSE x - 87
HexLow(v) == IF v < 10 THEN 48 + v ELSE 87 + v
RECURSIVE HexRead(_, _)
HexRead(s, acc) == IF s = <<>> THEN [ok |-> TRUE, c |-> acc]
                   ELSE IF s[1] = 32 THEN HexRead(Tail(s), acc)
                   ELSE IF Len(s) >= 2 /\ IsHexLetter(s[1]) /\ IsHexLetter(s[2]) THEN HexRead(Drop(s, 2), Append(acc, 16 * HexVal(s[1]) + HexVal(s[2])))
                   ELSE [ok |-> FALSE, c |-> <<>>]
HexShow(c) == [i \in 1..(IF c = <<>> THEN 0 ELSE 3 * Len(c) - 1) |->
                 LET x == c[(i + 2) \div 3] IN CASE i % 3 = 1 -> HexLow(x \div 16) [] i % 3 = 2 -> HexLow(x % 16) [] OTHER -> 32]
Digits10(s) == \A i \in 1..Len(s) : s[i] \in 48..57
Unsign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
\* digits with at most one point, one digit at least
Mantissa(s, Digit(_)) == (\E i \in 1..Len(s) : Digit(s[i])) /\ (\A i \in 1..Len(s) : Digit(s[i]) \/ s[i] = Pt) /\ Cardinality({i \in 1..Len(s) : s[i] = Pt}) <= 1
IsDec(s) == LET u == Unsign(s)
                e == IF \E i \in 1..Len(u) : u[i] \in {69, 101} THEN CHOOSE i \in 1..Len(u) : u[i] \in {69, 101} /\ \A j \in 1..(i - 1) : u[j] \notin {69, 101} ELSE 0
            IN IF e = 0 THEN Mantissa(u, LAMBDA x : x \in 48..57)
               ELSE Mantissa(SubSeq(u, 1, e - 1), LAMBDA x : x \in 48..57) /\ Unsign(Drop(u, e)) # <<>> /\ Digits10(Unsign(Drop(u, e)))
IsHexFloat(s) == Mantissa(Unsign(s), IsHexLetter)
IsFloat(s) == IsDec(s) \/ IsHexFloat(s)

\* a number with a point, p digits after it kept
Cut(s, p) == LET u == Unsign(s)
                 i == FindFrom(u, Pt, 1)
                 frac == IF i = 0 THEN <<>> ELSE Drop(u, i)
                 kept == SubSeq(frac \o Fill(48, p), 1, p)
             IN (IF s[1] = 45 THEN <<45>> ELSE <<>>) \o <<48>> \o (IF i = 0 THEN u ELSE SubSeq(u, 1, i - 1)) \o kept

\* whether the text is a value, and its octets where they are told
Yes(c) == [ok |-> TRUE, c |-> c]
No == [ok |-> FALSE, c |-> <<>>]
ValueOf(k, s) ==
  CASE k.k = "int" -> IF s = <<45>> /\ k.t \in {5, 15, 16, 20} THEN Yes(PadTo(<<>>, k.w))
                      ELSE LET p == ParseInt(s) IN IF p.ok /\ InRange(Plain(k.t), p.x) THEN Yes(Store(Plain(k.t), p.x)) ELSE No
    [] k.k = "scaled" -> IF s = <<45>> /\ k.t \in {5, 15, 16, 20} THEN Yes(PadTo(<<>>, k.w))
                         ELSE IF ~Mantissa(Unsign(s), LAMBDA x : x \in 48..57) THEN No
                         ELSE LET p == ParseInt(Cut(s, k.p)) IN IF InRange(Plain(k.t), p.x) THEN Yes(Store(Plain(k.t), p.x)) ELSE No
    [] k.k = "float" -> IF IsFloat(s) THEN Yes(<<>>) ELSE No
    [] k.k = "bits" -> IF \A i \in 1..Len(s) : s[i] \in {48, 49} THEN Yes(<<>>) ELSE No
    [] k.k = "text" -> Yes(s)
    [] k.k = "octets" -> HexRead(s, <<>>)
    [] k.k \in {"t", "d", "dt"} -> D!Read(k.k, s)
    [] k.k = "ln" -> NameOfText(s)
    [] k.k = "enum" -> IF \E i \in DOMAIN k.names : k.names[i] = s THEN Yes(<<>>) ELSE No
Holds(k, s) == ValueOf(k, s).ok

PutIn(s, c, x) == SubSeq(s, 1, c) \o <<x>> \o Drop(s, c)
RECURSIVE Unblank(_, _)
Unblank(s, c) == IF c < Len(s) /\ s[c + 1] = 95 THEN Unblank(SubSeq(s, 1, c) \o Drop(s, c + 1), c)
                 ELSE IF c >= 2 /\ s[c - 1] = 95 THEN Unblank(SubSeq(s, 1, c - 2) \o Drop(s, c - 1), c - 1)
                 ELSE [s |-> s, c |-> c]
In(s, c) == [ok |-> TRUE, s |-> s, c |-> c]
Out == [ok |-> FALSE, s |-> <<>>, c |-> 0]
\* the line s with the cursor after its c-th letter, which has just been typed
Checked(k, s, c) ==
  CASE k.k \in {"int", "scaled", "bits", "text"} -> IF Holds(k, s) THEN In(s, c) ELSE Out
    [] k.k = "float" -> IF Holds(k, IF s[Len(s)] \in {46, 45, 43, 101, 120, 112} THEN Append(s, 48) ELSE s) THEN In(s, c) ELSE Out
    [] k.k = "octets" -> LET r == ValueOf(k, s)
                         IN IF r.ok THEN In(HexShow(r.c), c + Len(HexShow(r.c)) - Len(s)) ELSE IF Holds(k, PutIn(s, c, 48)) THEN In(s, c) ELSE Out
    [] k.k \in {"t", "d", "dt"} ->
         LET u == Unblank(s, c)
             seps == SepsOf(k.k)
             n == Cardinality({i \in 1..u.c : u.s[i] \in {seps[j] : j \in DOMAIN seps}})
             v == PutIn(u.s, u.c - 1, seps[n + 1])
         IN IF Holds(k, u.s) THEN In(u.s, u.c) ELSE IF n < Len(seps) /\ Holds(k, v) THEN In(v, u.c + 1) ELSE Out
    [] k.k = "ln" -> LET v == PutIn(s, Len(s) - 1, Pt)
                     IN IF Holds(k, s) THEN In(s, c) ELSE IF Holds(k, v) THEN In(v, IF c = Len(s) THEN c + 1 ELSE c) ELSE Out
    [] k.k = "enum" -> IF \E i \in DOMAIN k.names : Len(s) <= Len(k.names[i]) /\ SubSeq(k.names[i], 1, Len(s)) = s THEN In(s, c) ELSE Out
\* a letter typed at the cursor of a line
Press(k, q, x) == LET r == Checked(k, PutIn(q.s, q.c, x), q.c + 1) IN IF r.ok THEN [s |-> r.s, c |-> r.c] ELSE q
EmptyLine == [s |-> <<>>, c |-> 0]

\* secrets: the way of showing is one for all of them.  0 octets, 1 letters, 2 stars for octets, 3 stars for letters
Stars(s) == [i \in DOMAIN s |-> IF s[i] = 32 THEN 32 ELSE 42]
SecretText(rep, c) == CASE rep = 0 -> HexShow(c) [] rep = 1 -> c [] rep = 2 -> Stars(HexShow(c)) [] rep = 3 -> Stars(c)
SecretRead(rep, s) == IF rep \in {1, 3} THEN Yes(s) ELSE HexRead(s, <<>>)
=============================================================================

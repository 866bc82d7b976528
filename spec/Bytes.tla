------------------------------- MODULE Bytes -------------------------------
(* Octet-string vocabulary shared by every specification of this project.   *)
(* Octet strings are sequences over 0..255, text is a sequence of Unicode    *)
(* code points.  TLC integers are 32 bit, so anything that can reach 2^31 is *)
(* kept as a sequence of octets.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Octet == 0..255
None == -1

Take(s, n) == IF n <= 0 THEN <<>> ELSE SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == IF n <= 0 THEN s ELSE SubSeq(s, n + 1, Len(s))
Slice(s, from, n) == SubSeq(s, from, from + n - 1)       \* 1-based, n octets

Cat(ss) == FlattenSeq(ss)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* first index of x in s at or after i, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE FindFrom(s, x, i + 1)

\* big-endian unsigned, n octets, value below 2^31
RECURSIVE BE(_, _)
BE(v, n) == IF n = 0 THEN <<>> ELSE Append(BE(v \div 256, n - 1), v % 256)

FromBE(s) == FoldLeft(LAMBDA a, b : a * 256 + b, 0, s)

\* number of octets needed for v >= 0 (at least one)
RECURSIVE Width(_)
Width(v) == IF v < 256 THEN 1 ELSE 1 + Width(v \div 256)

StripZeros(s) == IF \A i \in 1..Len(s) : s[i] = 0 THEN <<>>
                 ELSE LET k == CHOOSE i \in 1..Len(s) : s[i] # 0 /\ \A j \in 1..(i - 1) : s[j] = 0
                      IN SubSeq(s, k, Len(s))

Zeros(n) == [i \in 1..n |-> 0]
Fill(x, n) == [i \in 1..n |-> x]


Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsPfx(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Range2(s) == {s[i] : i \in 1..Len(s)}
=============================================================================

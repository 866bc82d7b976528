-------------------------------- MODULE Utf8 -------------------------------
(* UTF-8 (RFC 3629) between octets and code points.                          *)
EXTENDS Bytes

Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
CodeLen(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0

\* code point starting at i: <<value, octets>>, <<-1, 0>> if malformed
CodeAt(s, i) ==
  LET b == s[i]  n == CodeLen(s[i])
      bad == <<-1, 0>>
  IN CASE n = 0 -> bad
       [] n = 1 -> <<b, 1>>
       [] \E k \in 1..(n - 1) : ~Cont(s, i + k) -> bad
       [] n = 2 -> <<(b - 192) * 64 + (s[i + 1] - 128), 2>>
       [] n = 3 -> LET v == ((b - 224) * 64 + (s[i + 1] - 128)) * 64 + (s[i + 2] - 128)
                   IN IF v < 2048 \/ v \in 55296..57343 THEN bad ELSE <<v, 3>>
       [] n = 4 -> LET v == (((b - 240) * 64 + (s[i + 1] - 128)) * 64 + (s[i + 2] - 128)) * 64 + (s[i + 3] - 128)
                   IN IF v < 65536 \/ v > 1114111 THEN bad ELSE <<v, 4>>

RECURSIVE Utf8From(_, _, _)
Utf8From(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, text |-> acc]
  ELSE LET c == CodeAt(s, i) IN IF c[1] < 0 THEN [ok |-> FALSE, text |-> <<>>] ELSE Utf8From(s, i + c[2], Append(acc, c[1]))
Utf8Dec(s) == Utf8From(s, 1, <<>>)

Utf8Of(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Enc(t) == Cat([i \in 1..Len(t) |-> Utf8Of(t[i])])
AsciiOk(s) == \A i \in 1..Len(s) : s[i] < 128
=============================================================================

-------------------------------- MODULE Names ------------------------------
(* OBIS names (six value groups), attribute and method descriptors, the      *)
(* invoke-id-and-priority octet and the conformance block.                    *)
EXTENDS Num, Codes

Bad6 == [ok |-> FALSE, c |-> <<>>]
\* ---- names: text "a.b.c.d.e.f", groups left out or empty are 0 (f: 255); what follows a space after f is a remark
GroupOf(s, dflt) == IF s = <<>> THEN [ok |-> TRUE, v |-> dflt]
                    ELSE IF (\A i \in 1..Len(s) : IsDigit(s[i])) /\ Len(ParseInt(s).x.m) <= 1
                    THEN [ok |-> TRUE, v |-> PadTo(ParseInt(s).x.m, 1)[1]] ELSE [ok |-> FALSE, v |-> 0]
RECURSIVE Groups(_, _, _)
Groups(s, n, acc) ==
  LET i == FindFrom(s, IF n = 6 THEN 32 ELSE 46, 1)
      g == GroupOf(IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1), IF n = 6 THEN 255 ELSE 0)
  IN IF ~g.ok THEN Bad6 ELSE IF n = 6 THEN [ok |-> TRUE, c |-> Append(acc, g.v)]
     ELSE Groups(IF i = 0 THEN <<>> ELSE Drop(s, i), n + 1, Append(acc, g.v))
NameOfText(s) == Groups(s, 1, <<>>)
Nat10(v) == Digits(OfInt(v).m)
TextOfName(c) == Cat([i \in 1..6 |-> (IF i = 1 THEN <<>> ELSE <<46>>) \o Nat10(c[i])])
NameOfOctets(s) == IF Len(s) = 6 THEN [ok |-> TRUE, c |-> s] ELSE Bad6
Before(a, b) == a # b /\ \E i \in 1..6 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* medium, by value group A
MediumOf(a) == CASE a = 0 -> "Abstract" [] a = 1 -> "Electricity" [] a = 4 -> "Hca" [] a \in {5, 6} -> "Thermal" [] a = 7 -> "Gas"
                 [] a \in {8, 9} -> "Water" [] a = 15 -> "Other" [] OTHER -> "Reserved"

\* ---- descriptors: class (2 octets), name (6), attribute or method (signed octet)
DescOctets(cid, name, i) == BE(cid, 2) \o name \o <<IF i < 0 THEN i + 256 ELSE i>>
DescOf(s) == IF Len(s) < 9 THEN [ok |-> FALSE, cid |-> 0, name |-> <<>>, i |-> 0]
             ELSE [ok |-> TRUE, cid |-> s[1] * 256 + s[2], name |-> SubSeq(s, 3, 8), i |-> IF s[9] > 127 THEN s[9] - 256 ELSE s[9]]

\* ---- invoke id (bits 0..3), service class (bit 6), priority (bit 7)
InvokeOf(b) == b % 16
ClassOf(b) == (b \div 64) % 2 = 1
PrioOf(b) == b \div 128 = 1
InvokeOctet(i, s, p) == i + (IF s THEN 64 ELSE 0) + (IF p THEN 128 ELSE 0)

\* ---- conformance block: 24 bits, bit i the i-th most significant
Bits24(c) == [i \in 1..24 |-> (c[(i - 1) \div 8 + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]
Octets3(b) == [i \in 1..3 |-> FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(b, 8 * i - 7, 8 * i))]
ConfOfText(s) == IF Len(s) = 24 /\ Range2(s) \subseteq {48, 49} THEN [ok |-> TRUE, c |-> Octets3([i \in 1..24 |-> s[i] - 48])] ELSE Bad6
ConfOfContents(s) == IF Len(s) = 3 THEN [ok |-> TRUE, c |-> s] ELSE Bad6
ConfOfOctets(s) == IF Len(s) >= 5 /\ SubSeq(s, 1, 2) = <<4, 24>> THEN [ok |-> TRUE, c |-> SubSeq(s, 3, 5)] ELSE Bad6
\* number: bit i has the weight 2^i
ConfOfInt(x) == IF x.neg \/ Len(x.m) > 3 THEN Bad6
                ELSE LET b == Bits24(PadTo(x.m, 3)) IN [ok |-> TRUE, c |-> Octets3([i \in 1..24 |-> b[25 - i]])]
ConfText(c) == [i \in 1..24 |-> 48 + Bits24(c)[i]]
=============================================================================

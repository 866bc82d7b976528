------------------------------ MODULE MC_Names -----------------------------
(* Names, descriptors, invoke octets and conformance blocks over small        *)
(* alphabets: text and octets determine each other, order is total.          *)
EXTENDS Names
CONSTANTS Chars, MaxChars, Vals
VARIABLES k, x
vars == <<k, x>>
Strings(A, n) == UNION {[1..m -> A] : m \in 0..n}
Init == k = "start" /\ x = <<>>
Text == k = "start" /\ k' = "text" /\ \E s \in Strings(Chars, MaxChars) : x' = s
Name == k = "start" /\ k' = "name" /\ \E s \in [1..6 -> Vals] : x' = s
Invoke == k = "start" /\ k' = "invoke" /\ \E b \in 0..255 : x' = <<b>>
Conf == k = "start" /\ k' = "conf" /\ \E s \in [1..3 -> 0..7 \cup {16, 128, 255}] : x' = s
Desc == k = "start" /\ k' = "desc" /\ \E s \in [1..3 -> Vals], i \in -128..127 : x' = DescOctets(s[1] * 256 + s[2], <<s[3], 0, s[1], 0, s[2], 255>>, i)
Next == Text \/ Name \/ Invoke \/ Conf \/ Desc
Spec == Init /\ [][Next]_vars
TextIsName == k = "text" => LET r == NameOfText(x) IN r.ok => NameOfText(TextOfName(r.c)) = r
NameRoundTrip == k = "name" => NameOfText(TextOfName(x)) = NameOfOctets(x)
TotalOrder == k = "name" => \A i \in 1..6 : x[i] < 255 => Before(x, [x EXCEPT ![i] = @ + 1]) /\ ~Before([x EXCEPT ![i] = @ + 1], x) /\ ~Before(x, x)
InvokeRoundTrip == k = "invoke" => LET b == x[1] IN InvokeOctet(InvokeOf(b), ClassOf(b), PrioOf(b)) = b - 16 * ((b \div 16) % 4)
ConfRoundTrip == k = "conf" => ConfOfText(ConfText(x)).c = x /\ ConfOfOctets(<<4, 24>> \o x).c = x
ConfMirror == k = "conf" => LET m == ConfOfInt(Big(FALSE, StripZeros(x))) IN m.ok /\ ConfOfInt(Big(FALSE, StripZeros(m.c))).c = x
DescRoundTrip == k = "desc" => LET d == DescOf(x) IN d.ok /\ DescOctets(d.cid, d.name, d.i) = x
=============================================================================

------------------------------ MODULE MC_Texts -----------------------------
(* A cell of every kind is fed every short text of the alphabet, every small *)
(* number and every short octet string; showing what it holds and reading    *)
(* the text again gives the same value wherever a text can name it.          *)
EXTENDS Texts
CONSTANTS Alphabet, MaxText, Octets, MaxOctets
VARIABLES q, c, fresh
vars == <<q, c, fresh>>
Of(k, sz) == [k |-> k, tag |-> 1, sz |-> sz, els |-> IF k \in {"enum", "speed"} THEN <<0, 1, 5>> ELSE <<0, 2, 7>>, names |-> IF k = "enum" THEN << <<97>>, <<48, 32>>, <<97, 57>> >> ELSE << <<97>>, <<98>>, <<97>> >>, pre |-> IF k = "enum" THEN << <<5, <<49>> >> >> ELSE <<>>]
Strings(A, n) == UNION {[1..m -> A] : m \in 0..n}
Types == {Of(k, -1) : k \in Kinds} \cup {Of(k, 2) : k \in {"octets", "visible", "utf8"}}
Init == q \in Types /\ c = (IF Default(q).ok THEN Default(q).c ELSE <<65, 65>>) /\ fresh = TRUE
\* what is read does not depend on what was held: one reading per cell
Put(r) == /\ fresh /\ fresh' = FALSE
          /\ c' = (IF r.ok THEN r.c ELSE c) /\ UNCHANGED q
FromText == \E s \in Strings(Alphabet, MaxText) : Put(ReadText(q, s))
FromInt == \E n \in -1..300 : Put(ReadInt(q, OfInt(n)))
FromContents == \E s \in Strings(Octets, MaxOctets) : Put(ReadContents(q, s))
Next == FromText \/ FromInt \/ FromContents
Spec == Init /\ [][Next]_vars
\* only admissible values are held
Admitted == ReadContents(q, c) = Good(c)
TextRoundTrip == (q.k = "utf8" => Utf8Dec(c).ok) /\ Reversible(q, c) => ReadText(q, TextOf(q, c)) = Good(c)
\* an enumeration's number is read as the number shown
NumberRoundTrip == q.k \in {"bool", "bcd", "enum"} => ReadInt(q, Big(FALSE, StripZeros(c))) = Good(c)
=============================================================================

------------------------------ MODULE MC_Typing -----------------------------
(* Lines of every kind typed letter by letter, with the cursor at the end.   *)
EXTENDS Typing, Json, TLC
CONSTANTS Steps, Letters, Kinds
VARIABLES k, q, typed, hist
vars == <<k, q, typed, hist>>
KindOf(n) == CASE n = "unsigned" -> [k |-> "int", t |-> 17, w |-> 1] [] n = "long" -> [k |-> "int", t |-> 16, w |-> 2]
               [] n = "scaled" -> [k |-> "scaled", t |-> 16, w |-> 2, p |-> 2] [] n = "enum" -> [k |-> "enum", names |-> <<<<49, 50>>, <<49, 57, 48>>>>] [] OTHER -> [k |-> n]
Init == \E n \in Kinds : k = KindOf(n) /\ q = EmptyLine /\ typed = <<>> /\ hist = <<>>
Next == Len(hist) < Steps /\ \E x \in Letters :
          LET r == Press(k, q, x)
          IN /\ q' = r /\ k' = k /\ hist' = Append(hist, x)
             /\ typed' = IF r = q THEN typed ELSE Append(typed, x)
Spec == Init /\ [][Next]_vars
view == <<k, q, typed, Len(hist)>>
Seps == {46, 58, 45, 32}
Kept(s) == SelectSeq(s, LAMBDA x : x \notin Seps)
\* nothing typed is lost, doubled or moved: only separators come by themselves
NothingLost == k.k \notin {"int", "scaled"} => Kept(q.s) = Kept(typed)
AsTyped == k.k \in {"int", "scaled", "bits", "text", "float", "enum"} => q.s = typed
\* the line is a value, or a half octet, a number's sign or point, or a beginning of a name away from one
IsValue == q.s # <<>> => \/ Holds(k, q.s)
                         \/ k.k = "octets" /\ Holds(k, Append(q.s, 48))
                         \/ k.k = "float" /\ Holds(k, Append(q.s, 48))
                         \/ k.k = "enum" /\ \E i \in DOMAIN k.names : SubSeq(k.names[i], 1, Len(q.s)) = q.s
\* checked again, the line is as it is; the cursor stays at the end
Settled == q.s # <<>> => Checked(k, q.s, q.c) = In(q.s, q.c)
AtEnd == q.c = Len(q.s)
\* octets: letters may be typed without spaces
OctetsRead == k.k = "octets" /\ Holds(k, q.s) => HexShow(ValueOf(k, q.s).c) = q.s
ASSUME \A c \in {<<>>, <<0>>, <<49, 255>>, <<32, 32>>} : \A rep \in 0..3 :
         /\ rep < 2 => SecretRead(rep, SecretText(rep, c)) = Yes(c)
         /\ rep >= 2 => \A x \in 1..Len(SecretText(rep, c)) : SecretText(rep, c)[x] \in {32, 42}
Emit == IF Len(hist) = Steps THEN PrintT(<<"GEN", ToJson([k |-> k, typed |-> hist])>>) ELSE TRUE
=============================================================================

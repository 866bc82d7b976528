------------------------------- MODULE MC_Axdr ------------------------------
(* The three codecs of the COSEM data types: a value is put together step by *)
(* step (element after element, nested up to MaxDepth) and, independently,   *)
(* octets arrive one after the other.  Checked in every state: what is       *)
(* encoded is read back with exactly the octets behind it left over, no      *)
(* proper beginning of an encoding is itself readable, and whatever octets   *)
(* are readable are described by the value read (encoding it again and       *)
(* reading that changes nothing).                                            *)
EXTENDS Axdr, FiniteSetsExt, Json

CONSTANTS MaxDepth, MaxLen, MaxOctets, Alphabet, LeafSet, Mode

Leaves ==
  CASE LeafSet = "small" -> {Val(0, <<>>), Val(3, <<1>>), Val(17, <<130>>), Bits(0, <<>>), Bits(9, <<255, 128>>), Val(9, <<>>), Val(9, <<9, 1>>),
                             Val(10, <<65>>), Val(12, <<195, 169>>)}
    [] OTHER -> {Val(0, <<>>), Val(3, <<0>>), Val(3, <<1>>), Val(5, <<255, 255, 255, 254>>), Val(6, <<0, 0, 1, 0>>), Bits(0, <<>>), Bits(1, <<128>>),
                 Bits(8, <<90>>), Bits(9, <<255, 128>>), Val(9, <<>>), Val(9, <<9, 1>>), Val(10, <<65, 66>>), Val(12, <<195, 169>>), Val(13, <<18>>),
                 Val(15, <<128>>), Val(16, <<127, 255>>), Val(17, <<130>>), Val(18, <<1, 2>>), Val(20, <<1, 2, 3, 4, 5, 6, 7, 8>>),
                 Val(21, <<255, 0, 0, 0, 0, 0, 0, 1>>), Val(22, <<3>>), Val(23, <<63, 128, 0, 0>>), Val(24, <<63, 240, 0, 0, 0, 0, 0, 0>>),
                 Val(25, <<7, 231, 2, 28, 2, 23, 59, 59, 99, 128, 0, 0>>), Val(26, <<255, 255, 2, 29, 255>>), Val(27, <<255, 0, 255, 255>>),
                 Val(9, [i \in 1..130 |-> i])}

VARIABLES x, s
vars == <<x, s>>

RECURSIVE Depth(_)
Depth(v) == IF v.t \notin Complex \/ v.v = <<>> THEN 0 ELSE 1 + Max({Depth(v.v[i]) : i \in 1..Len(v.v)})

Init == x \in Leaves \cup {Comp(1, <<>>), Comp(2, <<>>)} /\ s = <<>>
Wrap(t) == /\ Depth(x) < MaxDepth /\ x' = Comp(t, <<x>>) /\ UNCHANGED s
Another == /\ x.t \in Complex /\ Len(x.v) < MaxLen
           /\ \E y \in Leaves \cup {Comp(2, <<>>)} : (x.t = 1 /\ x.v # <<>> => y.t = x.v[1].t) /\ x' = [x EXCEPT !.v = Append(@, y)]
           /\ UNCHANGED s
Again == /\ x.t \in Complex /\ x.v # <<>> /\ Len(x.v) < MaxLen /\ x' = [x EXCEPT !.v = Append(@, @[Len(@)])] /\ UNCHANGED s
Feed == /\ Len(s) < MaxOctets /\ \E o \in Alphabet : s' = Append(s, o) /\ UNCHANGED x
Build == Wrap(1) \/ Wrap(2) \/ Another \/ Again
NextBuild == Build
NextFeed == Feed
Next == CASE Mode = "build" -> NextBuild [] Mode = "feed" -> NextFeed [] OTHER -> NextBuild \/ NextFeed
Spec == Init /\ [][Next]_vars
InitFeed == x = Val(0, <<>>) /\ s = <<>>
FeedSpec == InitFeed /\ [][Feed]_vars
BuildSpec == Init /\ [][Build]_vars

Flavours == {CdtF, PduF, UtF}
RoundTrip ==
  \A F \in Flavours : WellFormed(F, x) =>
    \A tail \in {<<>>, <<0>>, <<17, 5>>, <<255, 255>>} :
      LET r == Dec(F, Enc(x) \o tail) IN r.ok /\ r.val = x /\ r.rest = tail
PrefixFree ==
  \A F \in Flavours : WellFormed(F, x) => LET e == Enc(x) IN \A k \in 0..(Len(e) - 1) : ~Dec(F, Take(e, k)).ok
\* an encoding belongs to one value: a value of another flavour with these octets is the same value
Agreement ==
  \A F, G \in Flavours : WellFormed(F, x) /\ WellFormed(G, x) => Dec(F, Enc(x)) = Dec(G, Enc(x))
Stable ==
  \A F \in Flavours : LET r == Dec(F, s) IN r.ok =>
     /\ WellFormed(F, r.val)
     /\ Dec(F, Enc(r.val) \o r.rest) = r
     /\ \E k \in 0..Len(s) : r.rest = Drop(s, k)
Emit == PrintT(<<"GEN", ToJson([val |-> Enc(x), raw |-> s])>>)
=============================================================================

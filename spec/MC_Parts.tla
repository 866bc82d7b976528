------------------------------ MODULE MC_Parts -----------------------------
(* Every octet string over the alphabet is fed to every type of the list,    *)
(* octet by octet; every text likewise.  Whatever is read is written back as *)
(* octets which read as the same value and nothing shorter reads at all.     *)
EXTENDS Parts
CONSTANTS Octets, MaxOctets, Letters, MaxText
VARIABLES q, f, s, t
vars == <<q, f, s, t>>
U == IntT(1, FALSE)
Pair == SeqT(<<U, VarT>>)
Types == <<IntT(1, TRUE), IntT(2, FALSE), BoolT, NullT, OctT(2), VarT, OptT(IntT(1, TRUE)), OptT(OptT(BoolT)), OptT(NullT), Pair, SeqT(<<OptT(U), Pair, BoolT>>),
           ChoiceT(<<0, 2>>, <<NullT, Pair>>), ChoiceT(<<1, 0>>, <<OptT(U), VarT>>), OfT(U), OfT(OptT(BoolT)), OfT(OfT(BoolT)), OfT(NullT), SeqT(<<OfT(U), U>>), DataT, SeqT(<<DataT, U>>)>>
RECURSIVE Listless(_)
Listless(T) == T.k \notin {"of", "data"} /\ \A i \in DOMAIN T.sub : Listless(T.sub[i])
Init == /\ \E i \in DOMAIN Types : q = Types[i]
        /\ f \in (IF Listless(q) THEN {"pdu", "ut"} ELSE {"pdu"})
        /\ s = <<>> /\ t = <<>>
Feed(x) == Len(s) < MaxOctets /\ t = <<>> /\ s' = Append(s, x) /\ UNCHANGED <<q, f, t>>
Write(x) == Len(t) < MaxText /\ s = <<>> /\ t' = Append(t, x) /\ UNCHANGED <<q, f, s>>
Next == (\E x \in Octets : Feed(x)) \/ (\E x \in Letters : Write(x))
Spec == Init /\ [][Next]_vars
R == Get(f, q, s)
ReadBack == R.why = "" => LET e == Put(q, R.x) IN Get(f, q, e) = Have(R.x, Len(e)) /\ Get(f, q, e \o <<1>>) = Have(R.x, Len(e))
\* no proper beginning of an encoding is one
PrefixFree == R.why = "" => LET e == Put(q, R.x) IN \A k \in 0..(Len(e) - 1) : Get(f, q, Take(e, k)).why = "cut"
WithinInput == R.m <= Len(s) /\ (R.why = "" => Get(f, q, Take(s, R.m)) = R)
Defaults == HasDefault(q) => LET e == Put(q, DefaultOf(q)) IN Get(f, q, e) = Have(DefaultOf(q), Len(e))
X == OfText(f, q, t)
TextsFit == X.ok => LET e == Put(q, X.x) IN Get(f, q, e) = Have(X.x, Len(e))
ShownRead == (X.ok /\ q.k \in {"int", "bool"}) => OfText(f, q, Shown(f, q, X.x)) = X
=============================================================================

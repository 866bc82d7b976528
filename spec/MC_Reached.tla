------------------------------ MODULE MC_Reached ------------------------------
(* Objects of every class whose attributes are put and taken away, read by   *)
(* their names; captured parts of the objects of a collection.               *)
EXTENDS Reached, Json
CONSTANTS Steps, Tokens, Pick
VARIABLES o, base, hist
vars == <<o, base, hist>>
view == <<o, Len(hist)>>
Ln == <<0, 0, 40, 0, 1, 255>>
Token(k) == <<9, 1, k>>
Init == \E c \in Pick : o = Thing(c, Ln) /\ base = o /\ hist = <<>>
Put1 == \E i \in DOMAIN o.a : \E k \in Tokens : i > 1 /\ o' = Force(o, i, Token(k)) /\ hist' = Append(hist, [op |-> "force", i |-> i, k |-> k]) /\ UNCHANGED base
Empty1 == \E i \in DOMAIN o.a : i > 1 /\ o' = Emptied(o, i) /\ hist' = Append(hist, [op |-> "clear", i |-> i, k |-> 0]) /\ UNCHANGED base
Next == Len(hist) < Steps /\ (Put1 \/ Empty1)
Spec == Init /\ [][Next]_vars

\* in the first states:
\* a name reaches one part, no two names of the schema the same, an alias what it stands for
OnePart == hist # <<>> \/ \A n \in Usable(o.c) : Cardinality(Named(o.c, Official(o.c, n))) = 1
Different == hist # <<>> \/ \A n, k \in SchemaNames(o.c) : n # k => Named(o.c, n) \cap Named(o.c, k) = {}
NoClash == hist # <<>> \/ AliasNames(o.c) \cap SchemaNames(o.c) = {}
Covered == hist # <<>> \/ Silent(Cls(o.c).key) \subseteq SchemaNames(o.c)
\* by its name is read what was put into the attribute last
LastPut(i) == LET js == {j \in DOMAIN hist : hist[j].i = i} j == CHOOSE x \in js : \A y \in js : y <= x
              IN IF js = {} THEN base.a[i] ELSE IF hist[j].op = "clear" THEN <<>> ELSE Token(hist[j].k)
ReadsLast == \A n \in Usable(o.c) : LET p == PartOf(o.c, n) IN ByName(o, n) = IF p.m THEN base.m[p.i] ELSE LastPut(p.i)
\* names within a structure differ; every structure of a type has names for all its elements
RECURSIVE StructsOf(_), EachStructOf(_, _)
EachStructOf(ts, k) == IF k > Len(ts) THEN <<>> ELSE StructsOf(ts[k]) \o EachStructOf(ts, k + 1)
StructsOf(t) == CASE t.k = "struct" -> <<Len(t.sub)>> \o EachStructOf(t.sub, 1) [] t.k = "array" -> StructsOf(t.sub[1]) [] OTHER -> <<>>
ElementNames == hist # <<>> \/ \A i \in DOMAIN Attrs(o.c) : LET ns == StructNames(Cls(o.c).key, FALSE, i)
                IN /\ \A k \in DOMAIN ns : \A x, y \in DOMAIN ns[k] : x # y => ns[k][x] # ns[k][y]
                   /\ LET z == StructsOf(Attrs(o.c)[i].t) IN z # <<>> => ns # <<>> /\ Len(ns[1]) = z[1]
\* a column of a profile captured by another is the column itself
Known == <<[ln |-> Ln, c |-> o.c, on |-> <<79>>, at |-> [i \in DOMAIN o.a |-> <<64 + i>>], mt |-> [i \in DOMAIN o.m |-> <<96 + i>>], caps |-> <<>>]>>
Through == hist # <<>> \/ \A i \in DOMAIN o.a : \A d \in 0..3 :
             LET p == [ln |-> <<1, 0, 99, 1, 0, 255>>, c |-> ClassNo("profile_generic.ver1:ProfileGeneric"), on |-> <<80>>, at |-> [k \in 1..8 |-> <<k>>], mt |-> <<<<1>>, <<2>>>>,
                       caps |-> <<[ln |-> Ln, i |-> i, d |-> d]>>] obs == Append(Known, p)
             IN Column(obs, p.ln, 2, 1) = Column0(obs, Ln, i, d) /\ (Column0(obs, Ln, i, d).e = "" => Len(Column0(obs, Ln, i, d).names) = 2)
AllClasses == 1..ClassCount
Emit == Len(hist) = Steps => PrintT(<<"GEN", ToJson([key |-> Cls(o.c).key, ops |-> hist])>>)
SetToSeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
ASSUME PrintT(<<"GEN", ToJson([key |-> "", names |-> [c \in 1..ClassCount |->
            [key |-> Cls(c).key, usable |-> SetToSeqOf(Usable(c)), attrs |-> [i \in DOMAIN Attrs(c) |-> Attrs(c)[i].n], meths |-> [i \in DOMAIN Meths(c) |-> Meths(c)[i].n],
             structs |-> [i \in DOMAIN Attrs(c) |-> StructNames(Cls(c).key, FALSE, i)], mstructs |-> [i \in DOMAIN Meths(c) |-> StructNames(Cls(c).key, TRUE, i)]]]])>>)
=============================================================================

------------------------------- MODULE MC_Obis ------------------------------
(* The class map over an alphabet of names: the channel and the storage      *)
(* group do not matter outside manufacturer ranges, every name has classes,  *)
(* a country's map only narrows, and no row is without effect by accident.   *)
EXTENDS Obis
CONSTANTS Bs, Cs, Ds, Es, Fs
VARIABLES spec, n
vars == <<spec, n>>
Some(s) == s
FewCs == {0, 1, 10, 21, 40, 42, 44, 94, 96, 98, 99, 128, 240}
ManyCs == 0..255
Init == spec \in Specs /\ n \in {<<a, 0, c, 0, 0, 255>> : a \in {0, 1, 128}, c \in Cs}
Next == n[2] = 0 /\ n[4] = 0 /\ n[5] = 0 /\ n[6] = 255 /\ UNCHANGED spec /\ \E b \in Bs, d \in Ds, e \in Es, f \in Fs : n' = <<n[1], b, n[3], d, e, f>>
Spec == Init /\ [][Next]_vars

Any == Accepted(spec, n) # {}
\* one object kind per class: a class and version determine the object
Determined == \A k, m \in Kinds(spec, n) : ClassOf(k)[1] = ClassOf(m)[1] => k = m
Storage == n[6] \notin 128..254 => Kinds(spec, n) = Kinds(spec, [n EXCEPT ![6] = 255])
Channel == ~Manufacturer(n) /\ n[2] \in 1..64 /\ Kinds(spec, [n EXCEPT ![2] = 2]) = Kinds(spec, [n EXCEPT ![2] = 3]) => Kinds(spec, n) = Kinds(spec, [n EXCEPT ![2] = 2])
Own == Manufacturer(n) => Kinds(spec, n) = Common \/ \E i \in DOMAIN Rows(spec) : Len(Rows(spec)[i].k) = 5 /\ Kinds(spec, n) = Rows(spec)[i].m
\* a country or manufacturer adds rules: where it does, classes of an old rule stay among the old ones
Narrower == spec = "SPODES_3" /\ Kinds("DLMS_6", n) # Common => {p[1] : p \in Accepted(spec, n)} \subseteq {p[1] : p \in Accepted("DLMS_6", n)} \/ n[3] = 94
Bugs == spec = "KPZ1" => Accepted(spec, n) = Accepted("KPZ", n)
\* rows no name reaches: their D or E is a manufacturer's, such names are searched whole
Touch(row) == LET pick(s) == CHOOSE x \in s : TRUE
                  k == row.k
                  d == CASE Len(k) = 2 -> {<<pick(k[1]), 1, pick(k[2]), d, 77, 255>> : d \in {77}}
                         [] Len(k) = 3 -> {<<pick(k[1]), 1, c, d, 77, 255>> : c \in k[2], d \in k[3]}
                         [] Len(k) = 4 -> {<<pick(k[1]), 1, pick(k[2]), d, e, 255>> : d \in k[3], e \in k[4]}
                         [] OTHER -> {<<pick(k[1]), pick(k[2]), c, pick(k[4]), e, 255>> : c \in k[3], e \in k[5]}
              IN d
Dead(s) == {i \in DOMAIN Rows(s) : \A x \in Touch(Rows(s)[i]) : Kinds(s, x) # Rows(s)[i].m}
Unreached(s) == {i \in Dead(s) : \A j \in DOMAIN Rows(s) : j > i => Rows(s)[j].k # Rows(s)[i].k}
NoDeadRows == n = <<0, 0, 0, 0, 0, 255>> => \A i \in Unreached(spec) : \A x \in Touch(Rows(spec)[i]) : Manufacturer(x) /\ Len(Rows(spec)[i].k) < 5
=============================================================================

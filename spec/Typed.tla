-------------------------------- MODULE Typed -------------------------------
(* An interface object: a cell per attribute (the first holds the logical    *)
(* name), a cell per method parameter, the moment each attribute was read.   *)
(* c: number of the class in the schema.                                     *)
EXTENDS Schema

Attrs(c) == Cls(c).attrs
Meths(c) == Cls(c).meths
Made(ty, s) == IF s = <<>> THEN Fresh ELSE Put(ty, Fresh, s)
NewObj(c, ln) == [c |-> c,
                  a |-> [i \in DOMAIN Attrs(c) |-> Made(Attrs(c)[i].t, IF i = 1 THEN <<9, 6>> \o ln ELSE Attrs(c)[i].i)],
                  m |-> [i \in DOMAIN Meths(c) |-> Made(Meths(c)[i].t, Meths(c)[i].z)],
                  rt |-> [i \in DOMAIN Attrs(c) |-> <<>>]]
Enc1(cells) == [i \in DOMAIN cells |-> Octets(cells[i])]

AType(o, i) == Attrs(o.c)[i].t
Did(o) == [o |-> o, e |-> ""]
No(o, w) == [o |-> o, e |-> w]
SetAttr(o, i, s) == IF i \notin DOMAIN o.a THEN No(o, "index") ELSE IF ~Accepts(AType(o, i), o.a[i], s) THEN No(o, "bad") ELSE Did([o EXCEPT !.a[i] = Put(AType(o, i), @, s)])
ClearAttr(o, i) == IF i < 2 THEN No(o, "bad") ELSE IF i \notin DOMAIN o.a THEN No(o, "index") ELSE Did([o EXCEPT !.a[i] = Fresh])
\* the value a cell of a choice has taken on is reset to nothing of its type
Nil(t) == <<t>> \o (IF t \in {4, 9, 10, 12} THEN <<0>> ELSE Zeros(FixedLen[t]))
ResetTo(o, i) == LET c == o.a[i] t == TypeOf(AType(o, i), c)
                 IN IF AType(o, i).k = "choice" /\ c.on THEN (IF t.k = "leaf" /\ t.t \notin {25, 26, 27} THEN {Nil(t.t)} ELSE {}) ELSE {Attrs(o.c)[i].z}
SetMeth(o, i, s) == IF i \notin DOMAIN o.m THEN No(o, "index") ELSE IF ~Accepts(Meths(o.c)[i].t, o.m[i], s) THEN No(o, "bad") ELSE Did([o EXCEPT !.m[i] = Put(Meths(o.c)[i].t, @, s)])
Kind(o, i) == IF i \notin DOMAIN o.a THEN [e |-> "index", t |-> 0] ELSE [e |-> "", t |-> TagOf(AType(o, i), o.a[i])]

\* values of another object of the class: all in turn until one is refused
RECURSIVE Over(_, _, _, _)
Over(o, src, i, want) ==
  IF i > Len(o.a) THEN Did(o)
  ELSE IF ~src.a[i].on \/ i \notin want THEN Over(o, src, i + 1, want)
  ELSE LET r == SetAttr(o, i, Octets(src.a[i])) IN IF r.e = "" THEN Over(r.o, src, i + 1, want) ELSE r
\* a client's copy leaves out what the meter changes itself, but not the type of a value of choice
CopyObj(o, src) == Over(o, src, 2, {i \in DOMAIN o.a : Attrs(o.c)[i].c # 2 \/ Attrs(o.c)[i].t.k = "choice"})
CopyValues(o, src) == Over(o, src, 2, DOMAIN o.a)

OneOctet(i) == IF i < 0 THEN i + 256 ELSE i
Descriptor(o, i) == IF i \notin -128..127 THEN [e |-> "bad", d |-> <<>>]
                    ELSE [e |-> "", d |-> <<0, Cls(o.c).id>> \o o.a[1].x.c \o <<OneOctet(i)>>]
=============================================================================

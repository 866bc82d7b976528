------------------------------- MODULE BitCell -----------------------------
(* A bit string: n bits, kept in octets from the most significant bit on;    *)
(* w holds the bits of all its octets, those past n being padding.           *)
EXTENDS Axdr

OctetBits(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
BitsOf(c) == Cat([i \in 1..Len(c) |-> OctetBits(c[i])])
OctetsOf(w) == [k \in 1..(Len(w) \div 8) |-> FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(w, 8 * k - 7, 8 * k))]
Padded(bits) == bits \o Zeros((8 - (Len(bits) % 8)) % 8)
BitCell(n, w) == [n |-> n, w |-> w]
OfBits(bits) == BitCell(Len(bits), Padded(bits))
Value(c) == SubSeq(c.w, 1, c.n)
EncBits(c) == <<4>> \o LenEnc(c.n) \o OctetsOf(c.w)

IsBit(x) == x \in {0, 1}
DoBits(c, o) ==
  LET v == Value(c)
      k == IF o.op \in {"setbit", "inverse"} THEN (IF o.i < 0 THEN c.n + o.i ELSE o.i) ELSE 0
      inside == k \in 0..(c.n - 1)
      Ok2(x) == [c |-> x, e |-> ""]
      No(w) == [c |-> c, e |-> w]
  IN CASE o.op = "setbit" -> IF inside THEN Ok2(OfBits([v EXCEPT ![k + 1] = o.v])) ELSE No("index")
       [] o.op = "inverse" -> IF inside THEN Ok2(OfBits([v EXCEPT ![k + 1] = 1 - @])) ELSE No("index")
       [] o.op = "left" -> Ok2(IF o.k = 0 THEN c ELSE OfBits([i \in 1..c.n |-> v[((i - 1 + o.k) % c.n) + 1]]))
       [] o.op = "right" -> Ok2(IF o.k = 0 THEN c ELSE OfBits([i \in 1..c.n |-> v[((i - 1 + o.k * (c.n - 1)) % c.n) + 1]]))
       [] o.op = "clear" -> Ok2(IF c.n = 0 THEN c ELSE OfBits(Zeros(c.n)))
       [] o.op = "text" -> IF \A i \in 1..Len(o.s) : o.s[i] \in {48, 49} THEN Ok2(OfBits([i \in 1..Len(o.s) |-> o.s[i] - 48])) ELSE No("bad")
       [] o.op = "octets" -> LET r == Dec(CdtF, o.s) IN IF r.ok /\ r.val.t = 4 THEN Ok2(BitCell(r.val.n, BitsOf(r.val.c))) ELSE No("bad")
       [] o.op = "contents" -> Ok2(BitCell(8 * Len(o.s), BitsOf(o.s)))
=============================================================================

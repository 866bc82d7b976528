------------------------------- MODULE MC_Image -----------------------------
(* A client sends images to a server; any block or its answer may be lost,   *)
(* the client may stop and be started again with the same or another image.  *)
(* Blocks it has left behind have arrived, and when it is through the server *)
(* holds the image.                                                          *)
EXTENDS Image, TLC, Json
CONSTANTS MaxLen, Sizes, MaxOps
VARIABLES c, img, got, for, phase, hist
\* got: blocks the server holds for the identifier for; phase of the client: "off", "init", "block", "acked", "done"
vars == <<c, img, got, for, phase, hist>>

Octets(n, k) == [i \in 1..n |-> (i + 10 * k) % 256]
Images == {Octets(n, k) : n \in 1..MaxLen, k \in {0, 1}}
\* image and identifier belong together
IdOf(x) == <<Len(x), x[1]>>
Rec(o) == hist' = Append(hist, o)
Init == c = Idle /\ img = <<>> /\ got = {} /\ for = <<>> /\ phase = "off" /\ hist = <<>>
More == Len(hist) < MaxOps
\* the server tells its block size
Ask == /\ More /\ phase = "off" /\ \E b \in Sizes : c' = [c EXCEPT !.bs = b] /\ Rec([op |-> "bs", v |-> b, s |-> <<>>, id |-> <<>>])
       /\ phase' = "on"
       /\ UNCHANGED <<img, got, for>>
Start == /\ More /\ phase = "on" /\ \E x \in Images : LET r == Load(c, x, IdOf(x)) IN c' = r.c /\ img' = x /\ Rec([op |-> "load", v |-> 0, s |-> x, id |-> IdOf(x)])
         \* the server is told of another image: it forgets the old one
         /\ IF for = c'.id THEN UNCHANGED <<got, for>> ELSE got' = {} /\ for' = c'.id
         /\ phase' = "block"
Send == /\ More /\ phase = "block"
        /\ \/ phase' = "block" /\ UNCHANGED got                          \* lost on the way
           \/ phase' \in {"block", "acked"} /\ got' = got \cup {<<c.num, c.val>>}   \* the answer may be lost
        /\ UNCHANGED <<c, img, for, hist>>
Go == /\ More /\ phase = "acked"
      /\ LET r == NextBlock(c) IN c' = r.c /\ phase' = (IF r.e = "" THEN "block" ELSE "done")
      /\ Rec([op |-> "next", v |-> 0, s |-> <<>>, id |-> <<>>])
      /\ UNCHANGED <<img, got, for>>
\* broken off; the program (and the number of the current block) goes on living
Break == /\ More /\ phase \in {"block", "acked"} /\ phase' = "on" /\ UNCHANGED <<c, img, got, for>> /\ Rec([op |-> "clear", v |-> 0, s |-> <<>>, id |-> <<>>])
Next == Ask \/ Start \/ Send \/ Go \/ Break
Spec == Init /\ [][Next]_vars

Seen == <<c, img, got, for, phase, Len(hist)>>
Holds(k) == \E x \in got : x[1] = k
NothingLeftBehind == phase \in {"block", "acked", "done"} => \A k \in 0..(c.num - 1) : Holds(k)
Exact == \A x \in got : x[2] = SubSeq(img, x[1] * c.bs + 1, Min2((x[1] + 1) * c.bs, Len(img))) \/ for # c.id \/ phase = "on"
Whole == phase = "done" => {x[1] : x \in got} = 0..(Len(c.blocks) - 1) /\ Joined(c.blocks) = img
Cut == phase \in {"block", "acked"} => Joined(c.blocks) = img /\ c.size = Len(img) /\ \A i \in 1..Len(c.blocks) : Len(c.blocks[i]) = c.bs \/ (i = Len(c.blocks) /\ Len(c.blocks[i]) \in 1..c.bs)
Emit == IF Len(hist) >= MaxOps THEN PrintT(<<"GEN", ToJson([hist |-> hist])>>) ELSE TRUE
=============================================================================

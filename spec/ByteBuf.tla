------------------------------- MODULE ByteBuf -----------------------------
(* The positioned octet buffer.  stores: the octet arrays there are, each    *)
(* with its write protection; bufs: buffers, a window (store, base, len) of a *)
(* store and a position; views: windows handed out by reading, which go on   *)
(* showing the store.  Windows and positions are 0-based.                    *)
EXTENDS Ber

EmptyHeap == [stores |-> <<>>, bufs |-> <<>>, views |-> <<>>]

Seen(h, w) == SubSeq(h.stores[w.s].d, w.base + 1, w.base + w.len)
Protected(h, w) == h.stores[w.s].ro

NewStore(h, d, ro, p) ==
  [h EXCEPT !.stores = Append(@, [d |-> d, ro |-> ro]),
            !.bufs = Append(@, [s |-> Len(h.stores) + 1, base |-> 0, len |-> Len(d), pos |-> p])]

Room(b, at, n) == b.len - at >= n
Patch(h, w, at, v) ==           \* put octets v at offset at of window w
  [h EXCEPT !.stores[w.s].d = [i \in 1..Len(@) |-> IF i - 1 \in (w.base + at)..(w.base + at + Len(v) - 1) THEN v[i - w.base - at] ELSE @[i]]]

Res(h, e, r) == [h |-> h, e |-> e, r |-> r]
Fail(h, e) == Res(h, e, <<>>)

\* one operation o = [op, b, ...] on heap h: heap after it, error ("" if none) and returned octets
DoRead(h, o, at, n, move) ==
  LET b == h.bufs[o.b]
  IN IF ~Room(b, at, n) THEN Fail(h, "space")
     ELSE LET w == [s |-> b.s, base |-> b.base + at, len |-> n]
              h1 == [h EXCEPT !.views = Append(@, w)]
          IN Res(IF move THEN [h1 EXCEPT !.bufs[o.b].pos = @ + n] ELSE h1, "", Seen(h, w))
DoGet(h, o, at, n, move) ==     \* octets read as a number: no window handed out
  LET b == h.bufs[o.b]
  IN IF ~Room(b, at, n) THEN Fail(h, "space")
     ELSE Res(IF move THEN [h EXCEPT !.bufs[o.b].pos = @ + n] ELSE h, "", Seen(h, [s |-> b.s, base |-> b.base + at, len |-> n]))
DoWrite(h, o, at, v, move) ==
  LET b == h.bufs[o.b]
  IN IF ~Room(b, at, Len(v)) THEN Fail(h, "space")
     ELSE IF Protected(h, b) THEN Fail(h, "protected")
     ELSE LET h1 == Patch(h, b, at, v) IN Res(IF move THEN [h1 EXCEPT !.bufs[o.b].pos = @ + Len(v)] ELSE h1, "", <<>>)

Do(h, o) ==
  CASE o.op = "allocate" -> Res(NewStore(h, Zeros(o.n), FALSE, 0), "", <<>>)
    [] o.op = "wrap" -> Res(NewStore(h, o.v, o.ro, 0), "", <<>>)
    [] o.op = "read" -> DoRead(h, o, h.bufs[o.b].pos, o.n, TRUE)
    [] o.op = "readpos" -> DoRead(h, o, o.at, o.n, FALSE)
    [] o.op \in {"get", "getuint8"} -> DoGet(h, o, h.bufs[o.b].pos, 1, TRUE)
    [] o.op = "getuint" -> DoGet(h, o, h.bufs[o.b].pos, o.n, TRUE)
    [] o.op = "getuintpos" -> DoGet(h, o, o.at, o.n, FALSE)
    [] o.op = "write" -> DoWrite(h, o, h.bufs[o.b].pos, o.v, TRUE)
    [] o.op = "writepos" -> DoWrite(h, o, o.at, o.v, FALSE)
    [] o.op = "putint" -> IF o.n \in 0..255 THEN DoWrite(h, o, h.bufs[o.b].pos, <<o.n>>, TRUE)
                          ELSE Fail(h, IF Room(h.bufs[o.b], h.bufs[o.b].pos, 1) THEN "value" ELSE "space")
    [] o.op = "putlen" -> DoWrite(h, o, h.bufs[o.b].pos, LenEnc(o.n), TRUE)
    [] o.op = "setpos" -> IF o.at \in 0..h.bufs[o.b].len THEN Res([h EXCEPT !.bufs[o.b].pos = o.at], "", <<>>) ELSE Fail(h, "index")
    [] o.op = "slice" ->
         LET b == h.bufs[o.b]
         IN Res([h EXCEPT !.bufs = Append(@, [s |-> b.s, base |-> b.base + b.pos, len |-> b.len - b.pos, pos |-> 0])], "", <<>>)
    [] o.op = "frozen" -> LET b == h.bufs[o.b] IN Res(NewStore(h, Seen(h, b), TRUE, 0), "", <<>>)

HeapOk(h) ==
  /\ \A i \in 1..Len(h.bufs) : LET b == h.bufs[i] IN
       b.s \in 1..Len(h.stores) /\ b.base >= 0 /\ b.base + b.len <= Len(h.stores[b.s].d) /\ b.pos \in 0..b.len
  /\ \A i \in 1..Len(h.views) : LET w == h.views[i] IN
       w.s \in 1..Len(h.stores) /\ w.base >= 0 /\ w.base + w.len <= Len(h.stores[w.s].d)
=============================================================================

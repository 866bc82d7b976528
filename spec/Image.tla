-------------------------------- MODULE Image -------------------------------
(* Image transfer, client side (Blue Book 4.4.6): the image is cut into      *)
(* blocks of the size the server asks for; a block number and its octets are *)
(* the next thing to send.  c: bs (0: not known), blocks, id, num, val, size.*)
EXTENDS Bytes

NBlocks(n, bs) == (n + bs - 1) \div bs
Blocks(img, bs) == [i \in 1..NBlocks(Len(img), bs) |-> SubSeq(img, (i - 1) * bs + 1, Min2(i * bs, Len(img)))]
RECURSIVE Joined(_)
Joined(b) == IF b = <<>> THEN <<>> ELSE Head(b) \o Joined(Tail(b))
Idle == [bs |-> 0, blocks |-> <<>>, id |-> <<100, 101, 102, 97, 117, 108, 116>>, num |-> 0, val |-> <<>>, size |-> 0]
No(c, e) == [c |-> c, e |-> e]
Yes(c) == [c |-> c, e |-> ""]
\* another image starts at its first block; the same one goes on with the block before the current one (it may not have arrived)
Load(c, img, id) ==
  IF c.bs = 0 \/ img = <<>> THEN No(c, "ValueError")
  ELSE LET b == Blocks(img, c.bs)
           k == IF id # c.id \/ c.num = 0 \/ c.num >= Len(b) THEN 0 ELSE c.num - 1
       IN Yes([c EXCEPT !.blocks = b, !.id = id, !.num = k, !.val = b[k + 1], !.size = Len(img)])
Select(c, i) == IF i >= Len(c.blocks) THEN No(c, "IndexError")
                ELSE IF i < 0 THEN No(c, "ValueError")
                ELSE Yes([c EXCEPT !.num = i, !.val = c.blocks[i + 1]])
NextBlock(c) == IF c.num + 1 >= Len(c.blocks) THEN No(c, "StopIteration") ELSE Select(c, c.num + 1)
Clear(c) == Yes([c EXCEPT !.blocks = <<>>])
=============================================================================

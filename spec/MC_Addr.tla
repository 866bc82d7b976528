------------------------------ MODULE MC_Addr ------------------------------
(* Address field: encoding is self-delimiting, decodes to the same parts and *)
(* hence is injective.                                                       *)
EXTENDS HdlcFrame
CONSTANTS Ups, Los
UpsQ == {0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 8191, 8192, 16383}
LosQ == {None, 0, 1, 2, 64, 127, 128, 129, 255, 4096, 16383}
UpsT == 0..300 \cup 16300..16383
LosT == {None} \cup 0..300 \cup 16300..16383
VARIABLES up, lo, w, tail
vars == <<up, lo, w, tail>>
Init == up \in Ups /\ lo \in Los /\ tail = <<>> /\ w = 0
Choose == /\ w = 0
          /\ tail' \in {<<>>, <<1>>, <<2, 3>>, <<0, 0, 0, 0, 255>>}
          /\ w' \in {x \in {1, 2, 4} : x >= AddrWidth(up, lo)}
          /\ UNCHANGED <<up, lo>>
Next == Choose
Spec == Init /\ [][Next]_vars
Enc == AddrBytes(up, lo, w)
RoundTrip == w # 0 => AddrScan(Enc \o tail) = w /\ AddrUp(Enc) = up /\ Lo0(AddrLo(Enc)) = Lo0(lo)
OctetsOK == \A k \in 1..w : Enc[k] \in Octet /\ (Enc[k] % 2 = 1) = (k = w)
=============================================================================

----------------------------- MODULE HdlcFrame -----------------------------
(* HDLC frame format type 3 (ISO/IEC 13239 annex H.4, IEC 62056-46): address *)
(* field, control field, frame layout, recognition of one frame at the head  *)
(* of a receive buffer.                                                      *)
EXTENDS Crc

Flag == 126
MaxLen == 2047                              \* 11-bit length field

(* ------------------------------ addresses ------------------------------- *)
MaxPart == 16383
AddrParts(up, lo) == up \in 0..MaxPart /\ (lo = None \/ lo \in 0..MaxPart)

\* shortest form that can carry the address; an absent lower address may be
\* sent as lower address 0 when the upper one needs two octets
AddrWidth(up, lo) ==
  IF lo \in {None, 0} THEN (IF up < 128 THEN 1 ELSE 4)
  ELSE IF up < 128 /\ lo < 128 THEN 2 ELSE 4

Lo0(lo) == IF lo = None THEN 0 ELSE lo

AddrBytes(up, lo, w) ==
  CASE w = 1 -> <<2 * up + 1>>
    [] w = 2 -> <<2 * up, 2 * Lo0(lo) + 1>>
    [] w = 4 -> <<2 * (up \div 128), 2 * (up % 128),
                  2 * (Lo0(lo) \div 128), 2 * (Lo0(lo) % 128) + 1>>

AddrUp(a) == IF Len(a) \in {1, 2} THEN a[1] \div 2 ELSE (a[1] \div 2) * 128 + a[2] \div 2
AddrLo(a) == CASE Len(a) = 1 -> None
               [] Len(a) = 2 -> a[2] \div 2
               [] Len(a) = 4 -> (a[3] \div 2) * 128 + a[4] \div 2

\* length of the address field at the head of s: 1, 2 or 4; 0 if there is none
AddrScan(s) == IF Len(s) >= 1 /\ s[1] % 2 = 1 THEN 1
               ELSE IF Len(s) >= 2 /\ s[2] % 2 = 1 THEN 2
               ELSE IF Len(s) >= 4 /\ s[4] % 2 = 1 THEN 4 ELSE 0

(* -------------------------------- frames -------------------------------- *)
FrameLen(f) == Len(f.da) + Len(f.sa) + 5 + (IF f.info = <<>> THEN 0 ELSE Len(f.info) + 2)

Format(seg, n) == <<160 + (IF seg THEN 8 ELSE 0) + (n \div 256), n % 256>>

EncFrame(f) ==
  LET hd == Format(f.seg, FrameLen(f)) \o f.da \o f.sa \o <<f.ctl>>
      body == IF f.info = <<>> THEN hd ELSE hd \o Fcs(hd) \o f.info
  IN <<Flag>> \o body \o Fcs(body) \o <<Flag>>

WellFormed(f) == FrameLen(f) <= MaxLen

NoFrame == [da |-> <<>>, sa |-> <<>>, ctl |-> None, info |-> <<>>, seg |-> FALSE]

\* body of a frame (from the format field to the FCS): the frame, or NoFrame
DecBody(b) ==
  LET da == AddrScan(Drop(b, 2))
      r1 == Drop(b, 2 + da)
      sa == AddrScan(r1)
      r2 == Drop(r1, sa)
      hd == Take(b, 3 + da + sa)
      r3 == Drop(r2, 1)
  IN IF da = 0 \/ sa = 0 \/ Len(r3) < 2 THEN NoFrame
     ELSE LET mk(i) == [da |-> Slice(b, 3, da), sa |-> Take(r1, sa), ctl |-> r2[1],
                        info |-> i, seg |-> (b[1] \div 8) % 2 = 1]
          IN IF Len(r3) = 2 THEN (IF r3 = Fcs(hd) THEN mk(<<>>) ELSE NoFrame)
             ELSE IF Len(r3) < 4 \/ Take(r3, 2) # Fcs(hd) THEN NoFrame
             ELSE IF Drop(r3, Len(r3) - 2) # Fcs(Take(b, Len(b) - 2)) THEN NoFrame
             ELSE mk(SubSeq(r3, 3, Len(r3) - 2))

(* One recognition step on a receive buffer.  Result: the frame or NoFrame,  *)
(* the buffer left, and whether the step ended because more octets are       *)
(* needed.  The closing flag of a frame stays: it may open the next one.     *)
Recognise(buf) ==
  LET k == FindFrom(buf, Flag, 1)
      s == IF k = 0 THEN <<>> ELSE Drop(buf, k - 1)
  IN IF Len(s) < 9 THEN [f |-> NoFrame, buf |-> s, wait |-> TRUE]
     ELSE IF s[2] \div 16 # 10 THEN [f |-> NoFrame, buf |-> Tail(s), wait |-> FALSE]
     ELSE LET n == (s[2] % 8) * 256 + s[3]
          IN IF n + 2 > Len(s) THEN [f |-> NoFrame, buf |-> s, wait |-> TRUE]
             ELSE LET f == IF n < 2 \/ s[n + 2] # Flag THEN NoFrame ELSE DecBody(Slice(s, 2, n))
                  IN IF f = NoFrame THEN [f |-> NoFrame, buf |-> Tail(s), wait |-> FALSE]
                     ELSE [f |-> f, buf |-> Drop(s, n + 1), wait |-> FALSE]

(* Reception until nothing more can be recognised. *)
RECURSIVE Drain(_, _)
Drain(buf, out) ==
  LET r == Recognise(buf)
  IN IF r.wait THEN [buf |-> r.buf, out |-> out]
     ELSE Drain(r.buf, IF r.f = NoFrame THEN out ELSE Append(out, r.f))

\* one arrival: the chunk is appended and everything recognisable delivered
Arrive(b, chunk) == Drain(b \o chunk, <<>>)

(* ----------------------------- control field ---------------------------- *)
\* bit 0 .. bit 7: information N(S) P/F N(R); supervisory 01 SS P/F N(R)
IsI(c) == c % 2 = 0
IsS(c) == c % 4 = 1
IsU(c) == c % 4 = 3
NS(c) == (c \div 2) % 8
NR(c) == c \div 32
PF(c) == (c \div 16) % 2 = 1
ICtl(ns, pf, nr) == 32 * nr + (IF pf THEN 16 ELSE 0) + 2 * ns
SCtl(ss, pf, nr) == 32 * nr + (IF pf THEN 16 ELSE 0) + 4 * ss + 1

NextSend(c) == ICtl((NS(c) + 1) % 8, PF(c), NR(c))
NextRecv(c) == ((NR(c) + 1) % 8) * 32 + 16 + (c % 16)
=============================================================================

-------------------------------- MODULE Crc --------------------------------
(* HDLC frame check sequence: CRC-16/X-25 (ISO/IEC 13239), polynomial        *)
(* x^16+x^12+x^5+1 reflected (0x8408), preset ones, complemented, sent low   *)
(* octet first.  Stated from the polynomial, not from any table.             *)
EXTENDS Bytes

RECURSIVE CrcBits(_, _)
CrcBits(v, n) == IF n = 0 THEN v
                 ELSE CrcBits(IF v % 2 = 1 THEN (v \div 2) ^^ 33800 ELSE v \div 2, n - 1)

CrcTable == TLCEval([b \in 0..255 |-> CrcBits(b, 8)])

CrcReg(msg) == FoldLeft(LAMBDA r, b : (r \div 256) ^^ CrcTable[(r % 256) ^^ b], 65535, msg)

Fcs(msg) == LET c == 65535 - CrcReg(msg) IN <<c % 256, c \div 256>>

\* a sequence followed by its own FCS leaves the register at the fixed residue
Residue == 61624
=============================================================================

-------------------------------- MODULE Texts ------------------------------
(* The text forms of booleans, strings, BCD, enumerations and flags: what a  *)
(* text (sequence of code points) means, and how a value is shown.           *)
EXTENDS Num, Utf8

Refused == [ok |-> FALSE, c |-> <<>>]
Good(c) == [ok |-> TRUE, c |-> c]

\* ------------------------------------------------------------------- boolean
Lower(x) == IF x \in 65..90 \/ x \in 1040..1071 THEN x + 32 ELSE IF x = 1025 THEN 1105 ELSE x
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
FalseWords == {<<102, 97, 108, 115, 101>>, <<1083, 1086, 1078, 1100>>, <<110, 111>>, <<1085, 1077, 1090>>}
TrueWords == {<<116, 114, 117, 101>>, <<1087, 1088, 1072, 1074, 1076, 1072>>, <<121, 101, 115>>, <<1076, 1072>>}
BoolOf(s) ==
  LET z == LowerAll(s)
  IN IF s = <<48>> \/ \E x \in FalseWords : IsPfx(z, x) THEN Good(<<0>>)
     ELSE IF s = <<49>> \/ \E x \in TrueWords : IsPfx(z, x) THEN Good(<<1>>) ELSE Refused
BoolText(c) == IF c = <<0>> THEN <<70, 97, 108, 115, 101>> ELSE <<84, 114, 117, 101>>

\* ---------------------------------------------------------------------- hex
HexOf(x) == CASE x \in 48..57 -> x - 48 [] x \in 65..70 -> x - 55 [] x \in 97..102 -> x - 87 [] OTHER -> -1
White(x) == x = 32 \/ x \in 9..13
RECURSIVE UnHex(_, _)
UnHex(s, acc) == IF s = <<>> THEN Good(acc)
                 ELSE IF White(s[1]) THEN UnHex(Tail(s), acc)
                 ELSE IF Len(s) = 1 THEN Refused
                 ELSE IF HexOf(s[1]) < 0 \/ HexOf(s[2]) < 0 THEN Refused
                 ELSE UnHex(Drop(s, 2), Append(acc, 16 * HexOf(s[1]) + HexOf(s[2])))
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(c) == Cat([i \in 1..Len(c) |-> (IF i = 1 THEN <<>> ELSE <<32>>) \o <<HexDigit(c[i] \div 16), HexDigit(c[i] % 16)>>])

\* ------------------------------------------------------------- Windows-1251
\* code points of 128..255; -1: not defined
High == <<1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039, 1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, -1, 8482, 1113, 8250, 1114, 1116, 1115, 1119, 160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031, 176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103>>
CharOf(b) == IF b < 128 THEN b ELSE High[b - 127]
\* control octets and octets without a character are shown as a question mark
ShownAs(b) == IF b < 32 \/ CharOf(b) < 0 THEN 63 ELSE CharOf(b)
Shown1251(c) == [i \in 1..Len(c) |-> ShownAs(c[i])]
OctetOf(x) == IF x < 128 THEN x ELSE IF \E i \in 1..128 : High[i] = x THEN 127 + (CHOOSE i \in 1..128 : High[i] = x) ELSE -1
To1251(s) == LET c == [i \in 1..Len(s) |-> OctetOf(s[i])] IN IF \E i \in 1..Len(s) : c[i] < 0 THEN Refused ELSE Good(c)

\* ------------------------------------------------------------- one cell type
\* q: [k: kind, tag, sz: exact size of a string or -1, els: codes, names: their texts, in order]
Kinds == {"bool", "octets", "visible", "utf8", "bcd", "enum", "flags", "speed"}
Sized(q, r) == IF r.ok /\ q.sz >= 0 /\ Len(r.c) # q.sz THEN Refused ELSE r
\* decimal digits only
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
Small(x) == ~x.neg /\ Len(x.m) <= 1
OneOctet(x) == PadTo(x.m, 1)
HasCode(q, n) == \E i \in 1..Len(q.els) : q.els[i] = n
Code(q, x) == IF Small(x) /\ HasCode(q, OneOctet(x)[1]) THEN Good(OneOctet(x)) ELSE Refused
Speeds == <<300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200>>
SpeedOrCode(q, x) == IF \E i \in 1..10 : x = OfInt(Speeds[i]) THEN Good(<<(CHOOSE i \in 1..10 : x = OfInt(Speeds[i])) - 1>>) ELSE Code(q, x)
Bits8(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
\* flag number n stands for the octet value 2^n
FlagsOk(q, c) == Len(c) = 1 /\ \A n \in 0..7 : (c[1] \div (2 ^ n)) % 2 = 1 => HasCode(q, n)
Flags(q, c) == IF FlagsOk(q, c) THEN Good(c) ELSE Refused
BitsText(c) == [i \in 1..8 |-> 48 + Bits8(c[1])[i]]
OfBits(s) == FoldLeft(LAMBDA a, b : 2 * a + (b - 48), 0, s)

ReadText(q, s) ==
  CASE q.k = "bool" -> BoolOf(s)
    [] q.k = "octets" -> Sized(q, UnHex(s, <<>>))
    [] q.k = "visible" -> Sized(q, To1251(s))
    [] q.k = "utf8" -> IF \E i \in 1..Len(s) : s[i] \in 55296..57343 THEN Refused ELSE Sized(q, Good(Utf8Enc(s)))
    [] q.k = "bcd" -> IF AllDigits(s) /\ Small(ParseInt(s).x) THEN Good(OneOctet(ParseInt(s).x)) ELSE Refused
    [] q.k \in {"enum", "speed"} ->
         IF AllDigits(s) THEN (IF q.k = "speed" THEN SpeedOrCode(q, ParseInt(s).x) ELSE Code(q, ParseInt(s).x))
         ELSE IF \E i \in 1..Len(q.els) : q.names[i] = s
         THEN Good(<<q.els[CHOOSE i \in 1..Len(q.els) : q.names[i] = s /\ \A j \in 1..(i - 1) : q.names[j] # s]>>)
         ELSE Refused
    [] q.k = "flags" -> IF Len(s) = 8 /\ Range2(s) \subseteq {48, 49} THEN Flags(q, <<OfBits(s)>>) ELSE Refused
ReadInt(q, x) ==
  CASE q.k = "bool" -> Good(IF x = Zero THEN <<0>> ELSE <<1>>)
    [] q.k = "octets" -> IF x.neg \/ Len(x.m) > 32 THEN Refused ELSE Sized(q, Good(IF x.m = <<>> THEN <<0>> ELSE x.m))
    [] q.k = "visible" \/ q.k = "utf8" -> Sized(q, Good(Dec10(x)))
    [] q.k = "bcd" -> IF Small(x) THEN Good(OneOctet(x)) ELSE Refused
    [] q.k = "enum" -> Code(q, x)
    [] q.k = "speed" -> SpeedOrCode(q, x)
    [] q.k = "flags" -> IF Small(x) THEN Flags(q, OneOctet(x)) ELSE Refused
ReadContents(q, c) ==
  CASE q.k = "bool" -> IF Len(c) = 1 THEN Good(<<IF c[1] = 0 THEN 0 ELSE 1>>) ELSE Refused
    [] q.k \in {"octets", "visible", "utf8"} -> Sized(q, Good(c))
    [] q.k = "bcd" -> IF Len(c) = 1 THEN Good(c) ELSE Refused
    [] q.k \in {"enum", "speed"} -> IF Len(c) = 1 /\ HasCode(q, c[1]) THEN Good(c) ELSE Refused
    [] q.k = "flags" -> Flags(q, c)
Default(q) ==
  CASE q.k \in {"bool", "bcd"} -> Good(<<0>>)
    [] q.k \in {"octets", "visible", "utf8"} -> Sized(q, Good(<<>>))
    [] q.k \in {"enum", "speed"} -> Good(<<q.els[1]>>)
    [] q.k = "flags" -> Flags(q, <<q.els[1]>>)
\* units with a configured scaler show its prefix
PrefixIn(q, n) == IF \E i \in 1..Len(q.pre) : q.pre[i][1] = n THEN q.pre[CHOOSE i \in 1..Len(q.pre) : q.pre[i][1] = n /\ \A j \in (i + 1)..Len(q.pre) : q.pre[j][1] # n][2] ELSE <<>>
NameIn(q, n) == q.names[CHOOSE i \in 1..Len(q.els) : q.els[i] = n]
TextOf(q, c) ==
  CASE q.k = "bool" -> BoolText(c)
    [] q.k = "octets" -> HexText(c)
    [] q.k = "visible" -> Shown1251(c)
    [] q.k = "utf8" -> Utf8Dec(c).text
    [] q.k = "bcd" -> Digits(StripZeros(c))
    [] q.k \in {"enum", "speed"} -> PrefixIn(q, c[1]) \o NameIn(q, c[1])
    [] q.k = "flags" -> BitsText(c)
EncOf(q, c) == <<q.tag>> \o (IF q.k \in {"octets", "visible", "utf8"} THEN <<Len(c)>> \o c ELSE c)      \* contents below 128 octets
\* can the text be read back to the same value?
Reversible(q, c) ==
  CASE q.k = "visible" -> \A i \in 1..Len(c) : ShownAs(c[i]) = CharOf(c[i])
    [] q.k \in {"enum", "speed"} -> PrefixIn(q, c[1]) = <<>> /\ ~AllDigits(NameIn(q, c[1])) /\ \A i, j \in 1..Len(q.els) : q.names[i] = q.names[j] => i = j
    [] OTHER -> TRUE
\* names of the elements: the last one the configuration gives for the code, else type name and code
ElementName(cls, cfg, n) ==
  IF \E i \in 1..Len(cfg) : cfg[i][1] = n THEN cfg[CHOOSE i \in 1..Len(cfg) : cfg[i][1] = n /\ \A j \in (i + 1)..Len(cfg) : cfg[j][1] # n][2]
  ELSE cls \o <<40>> \o Digits(OfInt(n).m) \o <<41>>

\* ------------------------------------------- enumerations of the library
Run(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
LibTag(name) == CASE name = "ClientSAP" -> 15 [] name = "MechanismIdElement" -> 17 [] OTHER -> 22
LibCodes(name) ==
  CASE name \in {"IdentifiedKeyInfoOptions", "CertificateIdentificationType"} -> Run(0, 1)
    [] name = "KEKId" -> <<0>>
    [] name = "CommSpeed" -> Run(0, 9)
    [] name \in {"RestrictionType", "KeyInfoType", "AssociationStatus", "AccessModeMeth1", "AuthenticationMethod", "CSAttachment", "KeyID0", "KeyPair", "ControlState",
                 "PushOperationMethod", "SecuritySuite1"} -> Run(0, 2)
    [] name \in {"ProtectionType", "AccessMode0", "CertificateEntity", "CertificateType", "KeyID1"} -> Run(0, 3)
    [] name = "ClientSAP" -> <<0, 1, 16, 32, 48, 64, 80, 96>>
    [] name = "Unit" -> Run(1, 255)
    [] name \in {"ClockBase", "Status"} -> Run(0, 5)
    [] name = "PSStatus0" -> Run(0, 4)
    [] name \in {"PSStatus1", "AccessMode1"} -> Run(0, 6)
    [] name \in {"ImageTransferStatus", "MechanismIdElement", "SecurityPolicyVer1"} -> Run(0, 7)
    [] name = "TYPE" -> Run(1, 5)
    [] name = "SortMethod" -> Run(1, 6)
    [] name \in {"SecurityPolicy", "SecuritySuite0"} -> Run(0, 15)
    [] name = "ControlMode" -> Run(0, 6) \o Run(129, 134)
    [] name = "TransportServiceType" -> Run(0, 8) \o Run(200, 255)
    [] name = "MessageType" -> Run(0, 1) \o Run(128, 255)
    [] name = "ServiceId" -> Run(1, 2)
=============================================================================

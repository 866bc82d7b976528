SPECIFICATION Spec
CONSTANTS MaxDepth = 4
 MaxLen = 4
 MaxOctets = 14
 Alphabet = {0, 1, 2, 3, 4, 5, 9, 10, 12, 13, 15, 16, 17, 18, 19, 22, 26, 27, 128, 129, 130, 255}
 LeafSet = "all"
 Mode = "both"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

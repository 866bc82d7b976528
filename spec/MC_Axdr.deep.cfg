SPECIFICATION BuildSpec
CONSTANTS MaxDepth = 2
 MaxLen = 2
 MaxOctets = 0
 Alphabet = {0}
 LeafSet = "small"
 Mode = "build"
INVARIANTS RoundTrip PrefixFree Agreement
CHECK_DEADLOCK FALSE

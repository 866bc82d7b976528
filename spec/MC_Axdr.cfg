SPECIFICATION BuildSpec
CONSTANTS MaxDepth = 1
 MaxLen = 2
 MaxOctets = 0
 Alphabet = {0}
 LeafSet = "all"
 Mode = "build"
INVARIANTS RoundTrip PrefixFree Agreement
CHECK_DEADLOCK FALSE

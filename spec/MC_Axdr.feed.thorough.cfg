SPECIFICATION FeedSpec
CONSTANTS MaxDepth = 0
 MaxLen = 0
 MaxOctets = 6
 Alphabet = {0, 1, 2, 3, 4, 9, 10, 12, 17, 128, 129, 130, 255}
 LeafSet = "small"
 Mode = "feed"
INVARIANTS Stable
CHECK_DEADLOCK FALSE

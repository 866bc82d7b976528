SPECIFICATION Spec
CONSTANTS MaxLen2 = 5
 Sizes = {1, 2, 3, 4, 8}
 Alphabet = {0, 126, 230, 231}
INVARIANT Delivered
CHECK_DEADLOCK FALSE

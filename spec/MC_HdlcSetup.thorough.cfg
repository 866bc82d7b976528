SPECIFICATION Spec
CONSTANTS
  Alphabet = {1, 2, 5, 7, 8, 128, 129}
  MaxLen = 5
  Values = {0, 1, 128, 200}
INVARIANTS InRange Whole Understood
CHECK_DEADLOCK FALSE

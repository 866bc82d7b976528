SPECIFICATION Spec
CONSTANTS
  Alphabet = {1, 2, 5, 8, 128, 129}
  MaxLen = 4
  Values = {0, 1, 200}
INVARIANTS InRange Whole Understood
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 46, 97, 32}
  MaxText = 6
  Numbers = {0, 1}
  Patches = {0, 1, 2, 3}
  MaxList = 3
INVARIANTS TextRoundTrip Floor OrderLaws NearestExists NearestUnique
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Octets = {0, 1, 2, 3, 9, 128, 129, 255}
  MaxOctets = 5
  Letters = {48, 49, 57, 45, 32, 58, 59, 97}
  MaxText = 5
INVARIANTS ReadBack PrefixFree WithinInput Defaults TextsFit ShownRead
CHECK_DEADLOCK FALSE

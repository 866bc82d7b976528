SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
  Sizes = {1, 2, 3, 4, 5}
  MaxOps = 16
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

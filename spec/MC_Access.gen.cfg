SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Es = {0, 1, 2, 5}
  Lists <- SomeLists
  Saps = {16, 32, 48}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

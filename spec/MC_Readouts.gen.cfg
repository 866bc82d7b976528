SPECIFICATION Spec
CONSTANTS
  Steps = 6
  Letters = 2
  Bytes3 = {0, 255}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

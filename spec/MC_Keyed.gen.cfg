SPECIFICATION Spec
CONSTANTS
  Steps = 14
  Keys = {0, 1, 2}
  Most = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

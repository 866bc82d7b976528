SPECIFICATION Spec
CONSTANTS
  Steps = 9
  Deep = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Steps = 6
  Deep = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Deep = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

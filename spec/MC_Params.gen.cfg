SPECIFICATION Spec
CONSTANTS
  Steps = 5
  Deep = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

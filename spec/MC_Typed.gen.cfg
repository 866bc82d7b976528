SPECIFICATION Spec
CONSTANTS
  Steps = 10
  Samples = 7
  Pick <- AllClasses
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

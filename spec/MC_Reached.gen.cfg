SPECIFICATION Spec
CONSTANTS
  Steps = 12
  Tokens = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Pick <- AllClasses
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Steps = 200
  Step = 3
  Pick = {1, 2, 3, 4, 5}
  Starts <- AllStarts
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

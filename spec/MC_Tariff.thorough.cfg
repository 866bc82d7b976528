SPECIFICATION Spec
CONSTANTS
  Steps = 3200
  Step = 3
  Pick = {1, 2, 3, 4, 5}
  Starts <- AllStarts
INVARIANTS LookupSeason LookupDay LookupAction
CHECK_DEADLOCK FALSE

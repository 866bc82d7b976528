SPECIFICATION Spec
CONSTANTS
  Steps = 120
  Step = 3
  Pick = {1, 2, 3, 4, 5}
  Starts <- QuickStarts
INVARIANTS LookupSeason LookupDay LookupAction
CHECK_DEADLOCK FALSE

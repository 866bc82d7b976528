SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Keys = {0, 1}
  Most = 2
VIEW view
INVARIANTS KeysDistinct ElementsFit NewIsVacant Stable
PROPERTY OthersStay
CHECK_DEADLOCK FALSE

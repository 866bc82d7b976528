SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Keys = {0, 1, 2}
  Most = 2
VIEW view
INVARIANTS KeysDistinct ElementsFit NewIsVacant Stable
PROPERTY OthersStay
CHECK_DEADLOCK FALSE

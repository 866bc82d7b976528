SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Deep = FALSE
INVARIANTS Returns Allowed Pure Same Foreign
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Steps = 5
  Deep = TRUE
INVARIANTS Returns Allowed Pure Same Foreign
VIEW view
CHECK_DEADLOCK FALSE

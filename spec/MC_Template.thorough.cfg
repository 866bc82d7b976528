SPECIFICATION Spec
CONSTANTS
  Steps = 6
  Deep = TRUE
INVARIANTS Returns FirstCounts Shapes
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Deep = FALSE
INVARIANTS Returns FirstCounts Shapes
VIEW view
CHECK_DEADLOCK FALSE

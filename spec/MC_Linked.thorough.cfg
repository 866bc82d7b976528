SPECIFICATION Spec
CONSTANTS
  Steps = 5
  Deep = TRUE
INVARIANTS ReadBack OnlyReading AnyOrder OneType SameUnit SameType
VIEW view
CHECK_DEADLOCK FALSE

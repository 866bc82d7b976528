SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Deep = FALSE
INVARIANTS ReadBack OnlyReading AnyOrder OneType SameUnit SameType
VIEW view
CHECK_DEADLOCK FALSE

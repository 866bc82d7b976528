SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Es = {0, 2}
  Lists <- SomeLists
  Saps = {16, 48}
INVARIANTS Monotone AtMost Agree Methods There ByAddress Records
VIEW Seen
CHECK_DEADLOCK FALSE

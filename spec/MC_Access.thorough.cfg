SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Es = {0, 1, 2}
  Lists <- FewLists
  Saps = {16, 48}
INVARIANTS Monotone AtMost Agree Methods There ByAddress Records
VIEW Seen
CHECK_DEADLOCK FALSE

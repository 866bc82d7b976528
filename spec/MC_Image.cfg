SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Sizes = {1, 2, 3}
  MaxOps = 8
INVARIANTS NothingLeftBehind Exact Whole Cut
VIEW Seen
CHECK_DEADLOCK FALSE

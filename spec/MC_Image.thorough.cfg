SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Sizes = {1, 2, 3}
  MaxOps = 18
INVARIANTS NothingLeftBehind Exact Whole Cut
VIEW Seen
CHECK_DEADLOCK FALSE

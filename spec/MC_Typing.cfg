SPECIFICATION Spec
CONSTANTS
  Steps = 5
  Letters = {48, 49, 50, 54, 57, 58, 46}
  Kinds = {"scaled", "unsigned", "octets", "t", "d", "ln", "float", "bits", "enum"}
VIEW view
INVARIANTS NothingLost AsTyped IsValue Settled AtEnd OctetsRead
CHECK_DEADLOCK FALSE

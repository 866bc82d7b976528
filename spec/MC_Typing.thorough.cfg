SPECIFICATION Spec
CONSTANTS
  Steps = 7
  Letters = {48, 49, 50, 54, 57, 58, 46, 45, 97, 101}
  Kinds = {"scaled", "unsigned", "long", "dt", "octets", "t", "d", "ln", "float", "bits", "enum"}
VIEW view
INVARIANTS NothingLost AsTyped IsValue Settled AtEnd OctetsRead
CHECK_DEADLOCK FALSE

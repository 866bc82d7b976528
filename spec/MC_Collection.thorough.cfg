SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Names <- AllNames
  Kinds0 <- AllKinds
INVARIANTS Journal OneEach DeviceName Allowed
VIEW Seen
CHECK_DEADLOCK FALSE

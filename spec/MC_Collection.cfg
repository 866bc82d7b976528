SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Names <- FewNames
  Kinds0 <- FewKinds
INVARIANTS Journal OneEach DeviceName Allowed
VIEW Seen
CHECK_DEADLOCK FALSE

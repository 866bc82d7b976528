SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Names <- AllNames
  Kinds0 <- AllKinds
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

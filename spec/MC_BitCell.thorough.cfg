SPECIFICATION Spec
CONSTANTS MaxBits = 16
 MaxOps = 6
VIEW View
INVARIANTS ReadBack Shape RefusedIsNoop Turn OneStep
CHECK_DEADLOCK FALSE

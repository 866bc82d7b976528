SPECIFICATION Spec
CONSTANTS MaxBits = 16
 MaxOps = 15
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

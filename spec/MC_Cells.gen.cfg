SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxOps = 15
 Vals = {1, 2, 3, 4}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxStores = 4
 MaxBufs = 6
 MaxViews = 6
 Size = 4
 MaxOps = 25
 Values <- Vals2
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

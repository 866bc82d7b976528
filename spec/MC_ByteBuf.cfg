SPECIFICATION Spec
CONSTANTS MaxStores = 2
 MaxBufs = 2
 MaxViews = 1
 Size = 2
 MaxOps = 4
 Values <- Vals1
VIEW View
INVARIANTS Inside RefusedIsNoop ProtectedNeverChanges OthersUntouched
CHECK_DEADLOCK FALSE

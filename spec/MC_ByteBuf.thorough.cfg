SPECIFICATION Spec
CONSTANTS MaxStores = 2
 MaxBufs = 3
 MaxViews = 2
 Size = 2
 MaxOps = 5
 Values <- Vals1
VIEW View
INVARIANTS Inside RefusedIsNoop ProtectedNeverChanges OthersUntouched
CHECK_DEADLOCK FALSE

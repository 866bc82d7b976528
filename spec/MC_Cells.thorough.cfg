SPECIFICATION Spec
CONSTANTS MaxLen = 4
 MaxOps = 7
 Vals = {1, 2, 3}
VIEW View
INVARIANTS RefusedIsNoop TypesKept ReadBack StaysUnique
CHECK_DEADLOCK FALSE

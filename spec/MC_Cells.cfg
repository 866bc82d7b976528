SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxOps = 4
 Vals = {1, 2}
VIEW View
INVARIANTS RefusedIsNoop TypesKept ReadBack StaysUnique
CHECK_DEADLOCK FALSE

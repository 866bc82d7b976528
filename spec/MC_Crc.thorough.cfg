SPECIFICATION Spec
CONSTANTS Pairs = TRUE  Bursts <- AllBursts
INVARIANTS Detected ResidueHolds
CHECK_DEADLOCK FALSE

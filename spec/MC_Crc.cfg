SPECIFICATION Spec
CONSTANTS Pairs = TRUE  Bursts = {1, 21845, 32767, 16384, 1234, 9999}
INVARIANTS Detected ResidueHolds
CHECK_DEADLOCK FALSE

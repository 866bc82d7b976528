SPECIFICATION Spec
CONSTANTS MaxSegs = 9  MaxExtra = 2  Starts = {0, 14, 254}
INVARIANTS Exact NoForgery Unfinished
CHECK_DEADLOCK FALSE

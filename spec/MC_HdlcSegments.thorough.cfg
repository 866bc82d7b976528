SPECIFICATION Spec
CONSTANTS MaxSegs = 10  MaxExtra = 4  Starts = {0, 2, 4, 6, 8, 10, 12, 14, 30, 254}
INVARIANTS Exact NoForgery Unfinished
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxSegs = 10  MaxExtra = 3  Starts = {0, 6, 14, 30, 254}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

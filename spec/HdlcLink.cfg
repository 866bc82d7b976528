SPECIFICATION Spec
CONSTANT MaxMsgs = 24
INVARIANTS CountersModulo8 Distinct8
VIEW View
CHECK_DEADLOCK FALSE

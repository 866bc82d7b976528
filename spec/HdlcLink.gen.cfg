SPECIFICATION Spec
CONSTANT MaxMsgs = 18
CONSTRAINT Emit

CHECK_DEADLOCK FALSE

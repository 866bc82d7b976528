SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Deep = TRUE
INVARIANTS Sound Harmless Saved CopyOnlyIf
VIEW view
CHECK_DEADLOCK FALSE

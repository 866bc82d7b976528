SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Deep = FALSE
INVARIANTS Sound Harmless Saved CopyOnlyIf
VIEW view
CHECK_DEADLOCK FALSE

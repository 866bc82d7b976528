SPECIFICATION Spec
CONSTANTS
  Starts <- QuickStarts
  Steps = 800
  Patterns <- SomePatterns
  TinyTop = 1
INVARIANTS Real Latest
PROPERTY Counted
CHECK_DEADLOCK FALSE

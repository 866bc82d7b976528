SPECIFICATION Spec
CONSTANTS
  Starts <- LongStarts
  Steps = 33000
  Patterns <- SomePatterns
  TinyTop = 2
INVARIANTS Real Latest
PROPERTY Counted
CHECK_DEADLOCK FALSE

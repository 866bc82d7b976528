SPECIFICATION Spec
CONSTANTS
  Steps = 2
  Samples = 3
  Pick <- AllClasses
INVARIANTS HoldsFit ParametersFit EmptyIsFresh Ordinary Narrower CopyIsEqual CopyToNew
VIEW view
CHECK_DEADLOCK FALSE

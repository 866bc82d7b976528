SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Samples = 5
  Pick <- AllClasses
INVARIANTS HoldsFit ParametersFit EmptyIsFresh Ordinary Narrower CopyIsEqual CopyToNew
VIEW view
CHECK_DEADLOCK FALSE

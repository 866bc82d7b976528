SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Tokens = {1, 2, 3}
  Pick <- AllClasses
INVARIANTS OnePart Different NoClash Covered ReadsLast ElementNames Through
VIEW view
CHECK_DEADLOCK FALSE

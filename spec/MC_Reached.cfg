SPECIFICATION Spec
CONSTANTS
  Steps = 2
  Tokens = {1, 2}
  Pick <- AllClasses
INVARIANTS OnePart Different NoClash Covered ReadsLast ElementNames Through
VIEW view
CHECK_DEADLOCK FALSE

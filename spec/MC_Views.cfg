SPECIFICATION Spec
CONSTANTS
  Max = 4
  Many = 7
  As = {0, 1, 2, 4, 5, 6, 7, 8, 15}
  Bs = {0, 1}
  Cs = {0, 1, 7, 9, 12, 13, 23, 40, 42, 43, 44, 70, 82, 90, 97, 98, 99, 100}
  Ds = {0, 1, 4, 6, 20, 31, 97, 99}
  Es = {0, 1, 10, 64, 255}
  Fs = {0, 100, 126, 255}
INVARIANTS GroupInMedium Selection Sorting TreesHold Attributes Patterns
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Max = 5
  Many = 7
  As = {0, 1, 2, 4, 5, 6, 7, 8, 15}
  Bs = {0, 1}
  Cs <- Up255
  Ds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 20, 24, 31, 35, 43, 60, 97, 98, 99, 255}
  Es = {0, 1, 10, 64, 255}
  Fs = {0, 100, 126, 255}
INVARIANTS GroupInMedium Selection Sorting TreesHold Attributes Patterns
CHECK_DEADLOCK FALSE

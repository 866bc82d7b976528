SPECIFICATION Spec
CONSTANTS
  Bs = {0, 1, 64, 130}
  Cs <- ManyCs
  Ds = {0, 1, 2, 5, 8, 97, 134, 255}
  Es = {0, 1, 4, 7, 20, 128, 255}
  Fs = {0, 255, 200}
INVARIANTS Any Determined Storage Channel Own Narrower Bugs NoDeadRows
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Bs = {0, 2, 130}
  Cs <- FewCs
  Ds = {0, 1, 2, 5, 8, 97, 134, 255}
  Es = {0, 4, 128, 255}
  Fs = {0, 255, 200}
INVARIANTS Any Determined Storage Channel Own Narrower Bugs NoDeadRows
CHECK_DEADLOCK FALSE

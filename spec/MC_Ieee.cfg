SPECIFICATION Spec
CONSTANTS
  Exps = {0, 1, 872, 873, 874, 875, 895, 896, 897, 898, 1000, 1023, 1024, 1149, 1150, 1151, 2046}
  Heads = {0, 1, 2, 3, 4194303, 4194304, 8388606, 8388607}
  Tails = {0, 1, 268435455, 268435456, 268435457, 536870911}
INVARIANTS SingleKept SignKept Nearest
CHECK_DEADLOCK FALSE

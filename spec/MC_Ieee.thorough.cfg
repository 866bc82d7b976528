SPECIFICATION Spec
CONSTANTS
  Exps = {0, 1, 500, 871, 872, 873, 874, 875, 876, 880, 885, 890, 893, 894, 895, 896, 897, 898, 899, 950, 1000, 1021, 1022, 1023, 1024, 1025, 1100, 1148, 1149, 1150, 1151, 1152, 2046}
  Heads = {0, 1, 2, 3, 4, 5, 8, 16, 1023, 65535, 65536, 2097151, 2097152, 4194303, 4194304, 4194305, 6291456, 8388604, 8388605, 8388606, 8388607}
  Tails = {0, 1, 2, 3, 134217728, 268435454, 268435455, 268435456, 268435457, 268435458, 402653184, 536870911}
INVARIANTS SingleKept SignKept Nearest
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Infos <- InfosG
 Wins <- WinsG
 MaxOps = 14
 Damages = {0, 1, 2, 4, 5, 6, 7, 8, 9, 128, 129, 255}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

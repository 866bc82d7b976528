SPECIFICATION Spec
CONSTANTS Near = 70000
 Leaps <- Far
INVARIANTS Agrees TextInverse TextScaled TwosInverse LimitsHold OrderAgrees ShiftBack
CHECK_DEADLOCK FALSE

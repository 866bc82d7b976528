SPECIFICATION Spec
CONSTANTS Near = 400
 Leaps <- Far
INVARIANTS Agrees TextInverse TextScaled TwosInverse LimitsHold OrderAgrees ShiftBack
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxB = 6  MaxR = 36  MaxN = 6  MaxLive = 600
INVARIANTS InRange Fairness Shrinks
CHECK_DEADLOCK FALSE

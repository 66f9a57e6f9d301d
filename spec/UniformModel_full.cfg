SPECIFICATION Spec
CONSTANTS MaxB = 9  MaxR = 81  MaxN = 8  MaxLive = 4000
INVARIANTS InRange Fairness Shrinks
CHECK_DEADLOCK FALSE

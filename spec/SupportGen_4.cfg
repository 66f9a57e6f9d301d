SPECIFICATION Spec
CONSTANTS
 Classes = {0,1,2,3,4,5,6,7,8,9}
 Lens = {1, 7}
 MaxRuns = 4
CHECK_DEADLOCK FALSE

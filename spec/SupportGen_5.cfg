SPECIFICATION Spec
CONSTANTS
 Classes = {0,2,3,6,7}
 Lens = {1, 40}
 MaxRuns = 5
CHECK_DEADLOCK FALSE

CONSTANTS
 E = {1, 2}
 Wr = {11, 12, 13}
SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Balanced
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

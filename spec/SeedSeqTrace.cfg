SPECIFICATION Spec
INVARIANT Below32
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

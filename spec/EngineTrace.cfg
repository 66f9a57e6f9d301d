SPECIFICATION Spec
INVARIANT NotForbidden
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Balanced Exact
CONSTANTS
 MaxValues = 2
 Emit = TRUE
CHECK_DEADLOCK FALSE

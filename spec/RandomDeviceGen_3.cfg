SPECIFICATION Spec
INVARIANTS Balanced Exact
CONSTANTS
 MaxValues = 3
 Emit = TRUE
CHECK_DEADLOCK FALSE

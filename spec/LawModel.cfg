SPECIFICATION Spec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Refines UsedTight Fair Thrift
CONSTANTS
 WB = 3
 MaxB = 9
 MaxLen = 4
CHECK_DEADLOCK FALSE

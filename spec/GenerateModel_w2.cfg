SPECIFICATION Spec
INVARIANTS Refines UsedTight Fair Thrift
CONSTANTS
 WB = 2
 MaxB = 12
 MaxLen = 4
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS TypeOK
CONSTANTS
 Dims = {1, 2, 3, 5}
 Len0 = 7
 Ops = {"new","bad","seed","seed0","draw","disc","gen","copy","swap","save","load"}
 O = {1, 2, 3}
 MaxText = 3
 MaxLen = 26
 Emit = TRUE
CHECK_DEADLOCK FALSE

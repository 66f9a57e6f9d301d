SPECIFICATION Spec
INVARIANTS TypeOK Additive Consistent Same
CONSTANTS
 Dims = {1, 3}
 Len0 = 2
 Ops = {"new","seed","draw","disc","copy","save","load"}
 O = {1, 2}
 MaxText = 1
 MaxLen = 60
 Emit = FALSE
CHECK_DEADLOCK FALSE
VIEW View

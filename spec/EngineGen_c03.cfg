SPECIFICATION Spec
INVARIANTS TypeOK Bounded
CONSTANTS
 Objs = {1, 2, 3}
 Streams = {1, 2, 3}
 Ops = {"seed","draw","discard","copy","swap"}
 Zs = {"z0","z1","zm","zB","zp"}
 MaxLen = 24
 Emit = TRUE
CHECK_DEADLOCK FALSE

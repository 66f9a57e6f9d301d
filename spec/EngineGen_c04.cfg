SPECIFICATION Spec
INVARIANTS TypeOK Bounded
CONSTANTS
 Objs = {1, 2, 3}
 Streams = {1, 2, 3}
 Ops = {"seed","draw","save","mark","load","readmark"}
 Zs = {"z1","z2","zm","zB","zD"}
 MaxLen = 24
 Emit = TRUE
CHECK_DEADLOCK FALSE

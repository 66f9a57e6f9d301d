SPECIFICATION Spec
INVARIANTS TypeOK Bounded
CONSTANTS
 Objs = {1, 2, 3}
 Streams = {1, 2, 3}
 Ops = {"seed","draw","discard"}
 Zs = {"z0","z1","z2","z3","zh","zm","zB","zp","zd","zD","zt"}
 MaxLen = 24
 Emit = TRUE
CHECK_DEADLOCK FALSE

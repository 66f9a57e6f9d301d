SPECIFICATION Spec
INVARIANTS TypeOK Bounded
CONSTANTS
 Objs = {1, 2}
 Streams = {1, 2}
 Ops = {"seed", "draw", "copy", "swap", "save", "mark", "load", "readmark"}
 Zs = {"z0", "z1", "zB"}
 MaxLen = 3
 Emit = FALSE
CHECK_DEADLOCK FALSE

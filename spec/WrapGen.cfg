SPECIFICATION Spec
INVARIANTS OnlyNamed Own
CONSTANTS
 E = {1, 2}
 Wr = {11, 12, 13}
 Kinds = {"vgval", "vgref", "vgptr", "u01val", "u01ref", "u01ptr", "rng"}
 MaxPos = 100
 MaxLen = 40
 Emit = TRUE
CHECK_DEADLOCK FALSE

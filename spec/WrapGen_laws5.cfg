SPECIFICATION Spec
INVARIANTS OnlyNamed Own
VIEW View
CONSTANTS
 E = {1, 2}
 Wr = {11, 12}
 Kinds = {"vgval", "vgref"}
 MaxPos = 1
 MaxLen = 5
 Emit = FALSE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS TypeOK Functional Reachable
CONSTANTS
 Sets = {0, 1}
 Ops = {"new","param","getp","copy","draw","drawp","fault","save","load","ecopy"}
 MaxLen = 3
 Emit = FALSE
CHECK_DEADLOCK FALSE

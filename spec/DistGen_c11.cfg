SPECIFICATION Spec
INVARIANTS TypeOK Functional Reachable
CONSTANTS
 Sets = {0, 1, 2, 3}
 Ops = {"new","mkp","param","getp","reset","copy","swap","draw","drawp","fault","reseed","ecopy"}
 MaxLen = 30
 Emit = TRUE
CHECK_DEADLOCK FALSE

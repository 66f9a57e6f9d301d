SPECIFICATION Spec
INVARIANTS TypeOK Functional Reachable
CONSTANTS
 Sets = {0, 1, 2, 3}
 Ops = {"new","mkp","getp","draw","save","savep","mark","load","loadp","readmark"}
 MaxLen = 30
 Emit = TRUE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SobolOK NiedOK CountOK MatrixOK
CONSTANTS
 Width = 30
 Small = 3
 Stride = 1
 Offset = 0
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS InRange SeedRefines DrawRefines DiscardRefines SaveRefines EqualRefines
CONSTANTS
 Ds = {1, 2, 3}
 NV = 8
 MaxZ = 7
CHECK_DEADLOCK FALSE

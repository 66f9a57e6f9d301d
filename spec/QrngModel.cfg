SPECIFICATION Spec
INVARIANTS InRange SeedRefines DrawRefines DiscardRefines SaveRefines EqualRefines
CONSTANTS
 Ds = {1, 2, 3}
 NV = 5
 MaxZ = 31
CHECK_DEADLOCK FALSE

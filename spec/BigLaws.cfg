SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Order Sums Quots Prods Draws

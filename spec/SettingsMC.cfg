SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE

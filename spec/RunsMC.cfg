SPECIFICATION Spec
CONSTANTS MaxN = 2
INVARIANTS Ups Inside Once Turned2 Thin Ask
CHECK_DEADLOCK FALSE

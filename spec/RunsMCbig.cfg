SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS Ups Inside Once Turned2 Thin Ask
CHECK_DEADLOCK FALSE

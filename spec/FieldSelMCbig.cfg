SPECIFICATION Spec
CONSTANTS
 Deep = 2
 Full = TRUE
INVARIANT Whole Origin Together Enclosed
PROPERTY KeepKeeps
ACTION_CONSTRAINT Emit

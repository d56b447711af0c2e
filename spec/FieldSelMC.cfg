SPECIFICATION Spec
CONSTANTS
 Deep = 2
 Full = FALSE
INVARIANT Whole Origin Together Enclosed
PROPERTY KeepKeeps
ACTION_CONSTRAINT Emit

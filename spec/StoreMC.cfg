SPECIFICATION Spec
INVARIANT LastSaved Settled Whole
VIEW VS
ACTION_CONSTRAINT Emit

SPECIFICATION Spec
CONSTANTS Items = {"i1", "i2", "i3"}
 Handles = {"a", "b"}
 MaxCtr = 2
 MaxRef = 2
CONSTRAINT Bound
VIEW View
INVARIANT Inv
PROPERTY StealOnlyBySet GoneForAReason RefKeepsAlive
ACTION_CONSTRAINT Emit

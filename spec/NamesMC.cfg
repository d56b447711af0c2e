SPECIFICATION Spec
CONSTANTS Alls <- AllsDef
 Deep = 3
VIEW View
CONSTRAINT Bound
INVARIANT KeptFirst NeedsIts CutEither Pure Sound
PROPERTY NoLeak ClearAll
ACTION_CONSTRAINT Emit

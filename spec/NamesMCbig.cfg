SPECIFICATION Spec
CONSTANTS Alls <- AllsBig
 Deep = 5
VIEW View
CONSTRAINT Bound
INVARIANT KeptFirst NeedsIts CutEither Pure Sound
PROPERTY NoLeak ClearAll

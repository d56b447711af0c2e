SPECIFICATION Spec
CONSTANTS MaxRef = 2
 MaxVer = 1
 Names = {"a", "b", "p", "q"}
CONSTRAINT Bound
VIEW View
INVARIANT Inv
PROPERTY SharedSurvives SameObject Stable Fresh
ACTION_CONSTRAINT Emit

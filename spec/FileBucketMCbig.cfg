SPECIFICATION Spec
CONSTANTS MaxRef = 2
 MaxVer = 1
 Names = {"a", "b", "p", "q", "r"}
CONSTRAINT Bound
VIEW View
INVARIANT Inv
PROPERTY SharedSurvives SameObject Stable Fresh

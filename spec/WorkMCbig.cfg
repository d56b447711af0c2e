SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxW = 4
 MaxEl = 40
 MaxK = 12
VIEW View
INVARIANT AtMostW Busy InOrder Answers
PROPERTY Ends
ACTION_CONSTRAINT Emit

SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxW = 3
 MaxEl = 14
 MaxK = 6
VIEW View
INVARIANT AtMostW Busy InOrder Answers
PROPERTY Ends
ACTION_CONSTRAINT Emit

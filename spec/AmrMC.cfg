INIT Init
NEXT Next
INVARIANT Inv
INVARIANT InvSel
CONSTANTS
 U = 2
 W = 3
 Depth = 2

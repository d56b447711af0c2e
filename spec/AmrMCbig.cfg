INIT Init
NEXT Next
INVARIANT Inv
INVARIANT InvSel
CONSTANTS
 U = 2
 W = 4
 Depth = 3

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Step = 15
  Qmax = 4

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Step = 30
  Qmax = 2

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Nmax = 5
  Cmax = 3

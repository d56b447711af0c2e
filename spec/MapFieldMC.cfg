INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Nmax = 3
  Cmax = 2

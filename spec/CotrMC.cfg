INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  DayStep = 9000
  Hours = {0, 17}
  TiltStep = 18

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  DayStep = 730
  Hours = {0, 5, 11, 17, 23}
  TiltStep = 5

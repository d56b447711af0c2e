INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  From = 26000
  To = 41000

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  From = 400
  To = 1500

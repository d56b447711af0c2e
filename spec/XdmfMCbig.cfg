INIT Init
NEXT Next
INVARIANT Laws
CONSTANT
  Kind = "all"

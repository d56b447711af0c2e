INIT Init
NEXT Next
INVARIANT Laws
CONSTANT N = 2

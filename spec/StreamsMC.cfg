SPECIFICATION Spec
CONSTANTS K = 4
N1 = 2
N2 = 2
Its = {3}
NV = 5
INVARIANT GoesOn EndsOnce Bounded NotLonger NotSlower Opposite Single Meaning
PROPERTY Ends

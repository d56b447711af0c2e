SPECIFICATION Spec
CONSTANTS K = 4
N1 = 3
N2 = 2
Its = {4}
NV = 4
INVARIANT GoesOn EndsOnce Bounded NotLonger NotSlower Opposite Single Meaning
PROPERTY Ends

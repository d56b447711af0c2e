SPECIFICATION Spec
CONSTANTS U = 4
Vals = {0, 1, 2}
Most = 6
INVARIANT Between Exact LinearField Swap Steps NearOne

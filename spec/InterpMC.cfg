SPECIFICATION Spec
CONSTANTS U = 2
Vals = {0, 1}
Most = 4
INVARIANT Between Exact LinearField Swap Steps NearOne

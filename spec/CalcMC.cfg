SPECIFICATION Spec
CONSTANTS L = 144
Vals = {0, 1}
Most = 4
W = 2
INVARIANT CurlGrad DivCurl Antisym Orthogonal Lagrange TraceDiv ConvSelf Linear Agree

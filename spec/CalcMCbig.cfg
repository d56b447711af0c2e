SPECIFICATION Spec
CONSTANTS L = 144
Vals = {0, 1}
Most = 6
W = 3
INVARIANT CurlGrad DivCurl Antisym Orthogonal Lagrange TraceDiv ConvSelf Linear Agree

------------------------------ MODULE CalcMC ------------------------------
(* the identities of vector calculus hold for these differences, on all small grids and fields *)
EXTENDS Calc, TLC
CONSTANTS Vals, Most, W
VARIABLES A, B, f, done
Ps == {<<0, 2>>, <<0, 2, 6>>, <<4>>, <<6, 4, 0>>}
Grids == {g \in [1..3 -> Ps] : Len(g[1]) * Len(g[2]) * Len(g[3]) <= Most}
Ax(g) == [i \in 1..3 |-> [n |-> <<"x", "y", "z">>[i], p |-> g[i]]]
N(g) == Len(g[1]) * Len(g[2]) * Len(g[3])
Init == /\ \E g \in Grids : \E v \in [1..N(g) -> Vals] : f = [ax |-> Ax(g), nc |-> 0, v |-> v]
        /\ A = <<>> /\ B = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E w \in 0..W : /\ A' = [ax |-> f.ax, nc |-> 3, v |-> [k \in 1..(3 * Len(f.v)) |-> (f.v[((k - 1) \div 3) + 1] * (k + w) + k * k * w) % 5]]
                          /\ B' = [ax |-> f.ax, nc |-> 3, v |-> [k \in 1..(3 * Len(f.v)) |-> ((k * (w + 2)) % 3) - 1]]
        /\ done' = TRUE /\ UNCHANGED f
Spec == Init /\ [][Next]_<<A, B, f, done>>
Zero(X) == \A i \in 1..Len(X.v) : X.v[i] = 0
(* differences along different axes commute, so these vanish exactly *)
CurlGrad == done => Zero(Curl(Grad(f, TRUE), TRUE))
DivCurl == done => Zero(Div(Curl(A, TRUE), TRUE))
Antisym == done => Cross(A, B) = Un(LAMBDA x : -x, Cross(B, A))
Orthogonal == done => Zero(Dot(A, Cross(A, B))) /\ Zero(Dot(B, Cross(A, B)))
Lagrange == done => Square(Cross(A, B)).v = Sub(Prod(Square(A), Square(B)), Prod(Dot(A, B), Dot(A, B))).v
TraceDiv == done => \A k \in 1..N([i \in 1..3 |-> A.ax[i].p]) :
              LET ix == Place(k - 1, Dim(A))
                  J == Jacobian(A, ix)
              IN  /\ Get(Div(A, TRUE).v, Full(f), ix \o <<0>>) = J[1][1] + J[2][2] + J[3][3]
                  /\ Get(Curl(A, TRUE).v, Full(A), ix \o <<2>>) = J[2][1] - J[1][2]
ConvSelf == done => Convect(B, f, TRUE).v = Dot(B, Grad(f, TRUE)).v
(* a field that is linear has its slope everywhere *)
Linear == done => LET g == [f EXCEPT !.v = Build(Dim(f), LAMBDA ix : 3 * f.ax[1].p[ix[1] + 1])]
          IN  \A i \in 1..Len(Comp(Grad(g, TRUE), 1).v) : Comp(Grad(g, TRUE), 1).v[i] = IF Len(f.ax[1].p) = 1 THEN 0 ELSE 6 * L
Agree == done => \A b \in {1, 2} : Beyond(<<b, 3>>, 1, 2, 1, 0) = <<2 * b - 3, b, 3, 6 - b, 9 - 2 * b>>
InnerSame == (done /\ \A i \in 1..3 : Len(f.ax[i].p) = 3) => Grad(f, FALSE).v = Fold(Grad(f, TRUE), {1}, LAMBDA q : q[2])
=============================================================================

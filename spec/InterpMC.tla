----------------------------- MODULE InterpMC -----------------------------
EXTENDS Interp, TLC
CONSTANTS Vals, Most
VARIABLES A, t
Ps == {<<0, 2>>, <<0, 2, 6>>, <<4>>}
Grids == {g \in [1..2 -> Ps] : Len(g[1]) * Len(g[2]) <= Most}
Ax(g) == [i \in 1..2 |-> [n |-> <<"x", "y">>[i], p |-> g[i]]]
Init == /\ \E g \in Grids : \E v \in [1..(Len(g[1]) * Len(g[2])) -> Vals] : A = [ax |-> Ax(g), nc |-> 0, v |-> v]
        /\ t = <<0 - U, 0 - U>>
(* a point wanders over the grid and beyond *)
Step(x) == IF x < 7 * U THEN x + 1 ELSE 0 - U
Next == /\ t' = IF t[1] = 7 * U THEN <<0 - U, Step(t[2])>> ELSE <<Step(t[1]), t[2]>>
        /\ UNCHANGED A
Spec == Init /\ [][Next]_<<A, t>>
N == Numer(A, 1, t)
D == Denom(A, t)
vv == A.v
(* nothing new: between the least and the greatest of the corners, exact where there is a place *)
Corners == {vv[Off(ix, Dim(A)) + 1] : ix \in {q \in [1..2 -> 0..3] : \A a \in 1..2 : q[a] \in {Sides(A, t)[a].i, Sides(A, t)[a].j}}}
Between == /\ D > 0
           /\ \E x \in Corners : N <= D * x
           /\ \E x \in Corners : N >= D * x
Exact == \A k \in 1..Len(A.v) : Points(A.ax)[k] = t => (N = D * vv[k] /\ ValuesNear(A, t) = {<<vv[k]>>})
(* a field that is linear is so everywhere inside *)
LinearField == LET g == [A EXCEPT !.v = Build(Dim(A), LAMBDA ix : 3 * A.ax[1].p[ix[1] + 1] - 5 * A.ax[2].p[ix[2] + 1])]
                   in(a) == t[a] >= U * A.ax[a].p[1] /\ t[a] <= U * A.ax[a].p[Len(A.ax[a].p)]
               IN  (in(1) /\ in(2)) => U * Numer(g, 1, t) = Denom(g, t) * (3 * t[1] - 5 * t[2])
(* the order of the axes does not matter *)
Swap == LET g == [ax |-> <<A.ax[2], A.ax[1]>>, nc |-> 0,
                  v |-> Build(<<Dim(A)[2], Dim(A)[1]>>, LAMBDA ix : Get(A.v, Dim(A), <<ix[2], ix[1]>>))]
        IN  Numer(g, 1, <<t[2], t[1]>>) = N
(* no jumps: a neighbouring point differs by no more than the steepest slope *)
Steps == \A a \in 1..2 : LET q == [t EXCEPT ![a] = @ + 1]
                             DD == Denom(A, q)
                         IN  Dist(N * DD, Numer(A, 1, q) * D) <= DD * D
NearOne == ValuesNear(A, t) # {} /\ \A x \in ValuesNear(A, t) : x[1] \in {vv[k] : k \in 1..Len(A.v)}
=============================================================================

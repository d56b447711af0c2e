------------------------------ MODULE Interp ------------------------------
(* The value of a field between its places (fields as in FieldAlg: positions p in half units, forward).
   Between two neighbouring places the value varies linearly along each axis; beyond the first or last place it is
   the value there, and along an axis of one place it does not vary.  Points are in units of 1/U half unit. *)
EXTENDS FieldAlg
CONSTANT U

(* along one axis: the neighbours of t (from 0), their weights, and the sum of the weights *)
Beside(p, t) ==
    LET n == Len(p)
    IN  IF n = 1 \/ t <= U * p[1] THEN [i |-> 0, j |-> 0, a |-> 1, b |-> 0]
        ELSE IF t >= U * p[n] THEN [i |-> n - 1, j |-> n - 1, a |-> 1, b |-> 0]
        ELSE LET k == CHOOSE k \in 1..(n - 1) : U * p[k] <= t /\ t < U * p[k + 1]
             IN  [i |-> k - 1, j |-> k, a |-> U * p[k + 1] - t, b |-> t - U * p[k]]
Sides(A, t) == [a \in 1..Len(A.ax) |-> Beside(A.ax[a].p, t[a])]
RECURSIVE Blend(_, _, _, _, _)
Blend(A, B, c, ix, a) ==
    IF a > Len(A.ax) THEN Get(A.v, Full(A), ix \o <<c - 1>>)
    ELSE IF B[a].b = 0 THEN B[a].a * Blend(A, B, c, ix \o <<B[a].i>>, a + 1)
    ELSE B[a].a * Blend(A, B, c, ix \o <<B[a].i>>, a + 1) + B[a].b * Blend(A, B, c, ix \o <<B[a].j>>, a + 1)
(* numerator and denominator of component c at the point t *)
Numer(A, c, t) == Blend(A, Sides(A, t), c, <<>>, 1)
Denom(A, t) == LET B == Sides(A, t) IN MulSeq([a \in 1..Len(A.ax) |-> B[a].a + B[a].b])

(* the places nearest to a point: one, or several equally near *)
Dist(x, y) == IF x >= y THEN x - y ELSE y - x
Nearest1(p, t) == {i \in 1..Len(p) : \A j \in 1..Len(p) : Dist(U * p[i], t) <= Dist(U * p[j], t)}
Nearest(A, t) == {ix \in [1..Len(A.ax) -> 0..(MaxOf(Dim(A)) - 1)] : \A a \in 1..Len(A.ax) : ix[a] + 1 \in Nearest1(A.ax[a].p, t[a])}
ValuesNear(A, t) == {[c \in 1..C1(A) |-> Get(A.v, Full(A), ix \o <<c - 1>>)] : ix \in Nearest(A, t)}
(* all places of a grid, the last axis running fastest, in units of points *)
Points(ax) == LET d == [i \in 1..Len(ax) |-> Len(ax[i].p)]
              IN  [k \in 1..ProdOf(d) |-> [a \in 1..Len(ax) |-> U * ax[a].p[Place(k - 1, d)[a] + 1]]]
=============================================================================

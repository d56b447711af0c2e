------------------------------ MODULE Features ------------------------------
(* Features found in fields: the cells in which a vector field vanishes and the kind of a null, the clusters of neighbouring
   points, the places where all topologies meet, the frame of a boundary.

   A vector field is T . (f1 w1, f2 w2, f3 w3): component d of the inner vector is f_d, a function of the d-th coordinate alone
   given at the grid's places and nowhere zero there, times positive functions of the other two; T is an invertible matrix.
   Between places it is linear along each axis, so it vanishes in exactly the cells where each f_d changes sign. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
          + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Turns(f) == {i \in 1..(Len(f) - 1) : (f[i] > 0) # (f[i + 1] > 0)}
Inside(p, b2) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3] < b2
(* cells by the indices (from 0) of their lower corner; those whose corner is nearer to the origin than ibound are left out *)
Nulls(fs, axes, b2) ==
    {<<i - 1, j - 1, k - 1>> : <<i, j, k>> \in {c \in Turns(fs[1]) \X Turns(fs[2]) \X Turns(fs[3]) :
                                                 ~Inside(<<axes[1][c[1]], axes[2][c[2]], axes[3][c[3]]>>, b2)}}
(* a field M(r - r0) free of divergence: one or two of the three directions lead away from the null *)
Kind(m) == IF Det(m) > 0 THEN "A" ELSE IF Det(m) < 0 THEN "B" ELSE "O"
Jacobian(m) == m

(* ----------------------------------------------------------------- clusters
   pts: set of index pairs (from 0) on an n[1] x n[2] lattice; pd[d]: the axis closes on itself *)
Shifts(pd, d) == IF pd[d] THEN {-1, 0, 1} ELSE {0}
Near(a, b, diag) == LET dx == Abs(a[1] - b[1]) IN LET dy == Abs(a[2] - b[2])
                    IN  IF diag THEN Max(dx, dy) <= 1 ELSE dx + dy <= 1
(* placed: set of <<point, shift>>; everything reached from it *)
Reach(pts, placed, n, pd, diag) ==
    {q \in pts \X (Shifts(pd, 1) \X Shifts(pd, 2)) :
        \E p \in placed : Near(<<p[1][1] + p[2][1] * n[1], p[1][2] + p[2][2] * n[2]>>, <<q[1][1] + q[2][1] * n[1], q[1][2] + q[2][2] * n[2]>>, diag)}
RECURSIVE Grow(_, _, _, _, _)
Grow(pts, placed, n, pd, diag) ==
    LET g == placed \cup Reach(pts, placed, n, pd, diag)
    IN  IF g = placed THEN placed ELSE Grow(pts, g, n, pd, diag)
RECURSIVE Clusters(_, _, _, _)
Clusters(pts, n, pd, diag) ==
    IF pts = {} THEN {}
    ELSE LET p == CHOOSE p \in pts : TRUE
             g == Grow(pts, {<<p, <<0, 0>>>>}, n, pd, diag)
         IN  {g} \cup Clusters(pts \ {q[1] : q \in g}, n, pd, diag)
(* a cluster which closes on itself has no middle *)
Clear(g) == \A p, q \in g : p[1] = q[1] => p = q
(* the sum of the positions of a cluster along one axis: x positions, len length of the period *)
RECURSIVE SumAt(_, _, _, _)
SumAt(g, d, x, len) == IF g = {} THEN 0
                       ELSE LET p == CHOOSE p \in g : TRUE
                            IN  x[p[1][d] + 1] + p[2][d] * len + SumAt(g \ {p}, d, x, len)
(* got: whether a middle in 1/720720 fits: the numbers are small and the tolerance is coarse, so hundredths do;
   positions are the same if they differ by whole periods *)
AlmostMean(got, sum, n, len) ==
    LET d == got * n - 100 * sum
        r == IF len = 0 THEN d ELSE d % (100 * n * len)
    IN  Abs(r) <= n \/ (len > 0 /\ 100 * n * len - r <= n)
Fits(g, got, x, len) == \A d \in 1..2 : AlmostMean(got[d], SumAt(g, d, x[d], len[d]), Cardinality(g), len[d])
(* every middle told is that of one cluster, and each cluster has one *)
MiddlesOk(cs, got, x, len) ==
    (\A g \in cs : Clear(g)) =>
       /\ Len(got) = Cardinality(cs)
       /\ \A g \in cs : \E k \in 1..Len(got) : Fits(g, got[k], x, len)
       /\ \A k \in 1..Len(got) : \E g \in cs : Fits(g, got[k], x, len)

(* --------------------------------------------------------- where topologies meet *)
Bit(a, k) == (a \div (2 ^ k)) % 2
RECURSIVE Or(_, _, _)
Or(a, b, k) == IF k < 0 THEN 0 ELSE (IF Bit(a, k) + Bit(b, k) > 0 THEN 2 ^ k ELSE 0) + Or(a, b, k - 1)
Both(a, b) == Or(a, b, 7)
Masked(a, limit) == IF limit = 0 THEN a ELSE a % (limit + 1)          \* limits are 2^k - 1
Joined(a) == [i \in 1..(Len(a) - 1) |-> [j \in 1..(Len(a[1]) - 1) |-> Both(Both(a[i][j], a[i + 1][j]), Both(a[i][j + 1], a[i + 1][j + 1]))]]
Mids(x) == [i \in 1..(Len(x) - 1) |-> (x[i] + x[i + 1]) \div 2]
Hits(a, val) == {<<i - 1, j - 1>> : <<i, j>> \in {c \in (1..Len(a)) \X (1..(IF Len(a) = 0 THEN 0 ELSE Len(a[1]))) : a[c[1]][c[2]] = val}}
(* [a, x, y, hits] after the round in which they first meet *)
RECURSIVE Meet(_, _, _, _, _, _, _)
Meet(a, x, y, val, k, lo, hi) ==
    IF k >= hi \/ Len(x) <= 1 \/ Len(y) <= 1 THEN [x |-> x, y |-> y, hits |-> {}]
    ELSE LET b == Joined(a)
             h == Hits(b, val)
         IN  IF k + 1 >= lo /\ h # {} THEN [x |-> Mids(x), y |-> Mids(y), hits |-> h]
             ELSE Meet(b, Mids(x), Mids(y), val, k + 1, lo, hi)

(* -------------------------------------------------------------------- the rest *)
Color(t) == CASE t = 1 -> <<0, 80, 0>> [] t = 2 -> <<0, 0, 70>> [] t = 4 -> <<70, 0, 0>> [] t = 8 -> <<70, 70, 70>> [] OTHER -> <<>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* samples vary by v[d] along axis d, all different: the axes from the least to the most *)
Ranks(v) == [r \in 1..3 |-> CHOOSE d \in 1..3 : Cardinality({e \in 1..3 : v[e] < v[d]}) = r - 1]
Unit(d) == [k \in 1..3 |-> IF k = d THEN 1 ELSE 0]
Neg(a) == <<-a[1], -a[2], -a[3]>>
=============================================================================

------------------------------- MODULE Calc -------------------------------
(* Vector calculus on fields (fields as in FieldAlg: positions p in half units).
   Algebra is place by place.  Derivatives are differences between the neighbours of a place, over the distance
   between them; at the edge of the grid the place itself stands in for the neighbour that is not there, and along
   an axis of one value nothing varies.  Derivatives are scaled by L, a multiple of every distance that occurs. *)
EXTENDS FieldAlg
CONSTANT L

Lower(a, b) == IF a <= b THEN a ELSE b
Upper(a, b) == IF a >= b THEN a ELSE b
QDiv(x, d) == IF d < 0 THEN (-x) \div (-d) ELSE x \div d
(* ------------------------------------------------------------- algebra *)
C(A, c) == Comp(A, c)
Prod(A, B) == Bin(LAMBDA x, y : x * y, A, B)
Sub(A, B) == Bin(LAMBDA x, y : x - y, A, B)
Sum(A, B) == Bin(LAMBDA x, y : x + y, A, B)
Dot(A, B) == Sum(Sum(Prod(C(A, 1), C(B, 1)), Prod(C(A, 2), C(B, 2))), Prod(C(A, 3), C(B, 3)))
Cross(A, B) == Join(<<Sub(Prod(C(A, 2), C(B, 3)), Prod(C(A, 3), C(B, 2))),
                      Sub(Prod(C(A, 3), C(B, 1)), Prod(C(A, 1), C(B, 3))),
                      Sub(Prod(C(A, 1), C(B, 2)), Prod(C(A, 2), C(B, 1)))>>)
Square(A) == Dot(A, A)
(* m is k times the square root of s, rounded one way or the other *)
IsRoot(m, k, s) == /\ m >= 0
                   /\ (m - 1) * (m - 1) <= k * k * s \/ m = 0
                   /\ k * k * s <= (m + 1) * (m + 1)
(* m is k times d / sqrt(s), s > 0 *)
IsOverRoot(m, k, d, s) ==
    LET a == IF m < 0 THEN -m ELSE m
    IN  /\ a > 1 => (m < 0) = (d < 0)
        /\ (a - 1) * (a - 1) * s <= k * k * d * d \/ a = 0
        /\ k * k * d * d <= (a + 1) * (a + 1) * s

(* --------------------------------------------------------- derivatives *)
(* of component c along axis a at place ix (from 0) *)
Slope(A, c, a, ix) ==
    LET d == Full(A)
        p == A.ax[a].p
        n == Len(p)
        i == ix[a]
        m == Upper(i - 1, 0)
        q == Lower(i + 1, n - 1)
        v(k) == Get(A.v, d, [ix EXCEPT ![a] = k] \o <<c - 1>>)
    IN  IF n = 1 THEN 0 ELSE QDiv(2 * L * (v(q) - v(m)), p[q + 1] - p[m + 1])
Inner(ax) == [i \in 1..Len(ax) |-> [ax[i] EXCEPT !.p = SubSeq(ax[i].p, 2, Len(ax[i].p) - 1)]]
(* a field of derivatives: on the whole grid, or on the places that have all their neighbours *)
Where(A, bnd) == IF bnd THEN A.ax ELSE Inner(A.ax)
OnGrid(A, bnd, nc, F(_, _)) ==
    LET ax == Where(A, bnd)
        d == [i \in 1..Len(ax) |-> Len(ax[i].p)]
        o == IF bnd THEN 0 ELSE 1
    IN  [ax |-> ax, nc |-> nc,
         v |-> Build(d \o <<(IF nc = 0 THEN 1 ELSE nc)>>,
                     LAMBDA ix : F([i \in 1..Len(d) |-> ix[i] + o], ix[Len(d) + 1] + 1))]
Grad(A, bnd) == OnGrid(A, bnd, 3, LAMBDA ix, c : Slope(A, 1, c, ix))
Div(A, bnd) == OnGrid(A, bnd, 0, LAMBDA ix, c : Slope(A, 1, 1, ix) + Slope(A, 2, 2, ix) + Slope(A, 3, 3, ix))
Nxt(c) == (c % 3) + 1
Curl(A, bnd) == OnGrid(A, bnd, 3, LAMBDA ix, c : Slope(A, Nxt(Nxt(c)), Nxt(c), ix) - Slope(A, Nxt(c), Nxt(Nxt(c)), ix))
(* (a . nabla) b *)
Convect(A, B, bnd) ==
    OnGrid(B, bnd, B.nc, LAMBDA ix, c : SumSeq([a \in 1..3 |-> Get(A.v, Full(A), ix \o <<a - 1>>) * Slope(B, c, a, ix)]))
Jacobian(A, ix) == [c \in 1..3 |-> [a \in 1..3 |-> Slope(A, c, a, ix)]]

(* ---------------------------------------------------------- boundaries *)
(* k places beyond the ends of q, nl of them below *)
Beyond(q, nl, nh, order, dx) ==
    LET n == Len(q)
    IN  [j \in 1..(n + nl + nh) |->
            LET i == j - nl
            IN  IF i \in 1..n THEN q[i]
                ELSE IF n = 1 THEN q[1] + (i - 1) * dx
                ELSE IF order = 0 THEN (IF i < 1 THEN q[1] ELSE q[n])
                ELSE IF i < 1 THEN q[1] + (i - 1) * (q[2] - q[1])
                ELSE q[n] + (i - n) * (q[n] - q[n - 1])]
Line(A, a, ix) == [k \in 1..Len(A.ax[a].p) |-> Get(A.v, Full(A), [ix EXCEPT ![a] = k - 1])]
(* the value at a place of the grown field that lies outside along axis a alone (or not at all: a = 0) *)
Grown(A, S, nl, nh, order, ix) ==
    LET m == Len(A.ax)
        old == [i \in 1..(m + 1) |-> IF i \in S THEN ix[i] - nl ELSE ix[i]]
        out == {i \in S : old[i] < 0 \/ old[i] >= Len(A.ax[i].p)}
    IN  IF out = {} THEN Get(A.v, Full(A), old)
        ELSE LET a == CHOOSE i \in out : TRUE
             IN  Beyond(Line(A, a, [old EXCEPT ![a] = 0]), nl, nh, order, 0)[ix[a] + 1]
Corner(A, S, nl, nh, ix) == Cardinality({i \in S : ix[i] - nl < 0 \/ ix[i] - nl >= Len(A.ax[i].p)}) > 1
GrownAx(A, S, nl, nh, corder) ==
    [i \in 1..Len(A.ax) |-> IF i \in S THEN [A.ax[i] EXCEPT !.p = Beyond(A.ax[i].p, nl, nh, corder, 2)] ELSE A.ax[i]]

(* ------------------------------------------------ between centerings *)
(* a value per face (edge), at the lower side of each cell: means over a cell; the last cells have no upper side *)
Lead(ax) == [i \in 1..Len(ax) |-> IF Len(ax[i].p) = 1 THEN ax[i] ELSE [ax[i] EXCEPT !.p = SubSeq(ax[i].p, 1, Len(ax[i].p) - 1)]]
UpFrom(A, ix, S) == [i \in 1..Len(ix) |-> IF i \in S /\ i <= Len(A.ax) /\ Len(A.ax[i].p) > 1 THEN ix[i] + 1 ELSE ix[i]]
FaceMean2(A, ix, c) == Get(A.v, Full(A), ix \o <<c - 1>>) + Get(A.v, Full(A), UpFrom(A, ix, {c}) \o <<c - 1>>)
EdgeMean4(A, ix, c) == LET o == (1..3) \ {c}
                           u == CHOOSE i \in o : TRUE
                           w == CHOOSE i \in o : i # u
                           g(S) == Get(A.v, Full(A), UpFrom(A, ix, S) \o <<c - 1>>)
                       IN  g({}) + g({u}) + g({w}) + g({u, w})

(* ------------------------------------------------------------- lines *)
(* points are triples of positions in half units; f is linear: 2 f(p) = 2 k0 + k . p *)
Lin2(k0, k, p) == 2 * k0 + k[1] * p[1] + k[2] * p[2] + k[3] * p[3]
RECURSIVE ISqrt(_, _)
ISqrt(s, m) == IF m * m >= s THEN m ELSE ISqrt(s, m + 1)
Dist(p, q) == ISqrt((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3]), 0)
(* eight times the integral *)
Along8(ln, k0, k) == SumSeq([i \in 1..(Len(ln) - 1) |-> (Lin2(k0, k, ln[i]) + Lin2(k0, k, ln[i + 1])) * Dist(ln[i], ln[i + 1])])
Work8(ln, k0, k) == SumSeq([i \in 1..(Len(ln) - 1) |->
                        SumSeq([c \in 1..3 |-> (Lin2(k0[c], k[c], ln[i]) + Lin2(k0[c], k[c], ln[i + 1])) * (ln[i + 1][c] - ln[i][c])])])
(* n evenly spaced (by number) points of a line, times n - 1 *)
Resampled(q, n) ==
    LET m == Len(q) - 1
    IN  [j \in 1..n |-> LET t == (j - 1) * m
                            i == Lower(t \div (n - 1), m - 1)
                            f == t - i * (n - 1)
                        IN  [c \in 1..3 |-> (n - 1) * q[i + 1][c] + f * (q[i + 2][c] - q[i + 1][c])]]
=============================================================================

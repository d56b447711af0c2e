------------------------------- MODULE Dipole -------------------------------
(* A magnetic dipole at the origin, its field on points and on the staggered points
   of a grid, the part of a grid that lies in a shell, and the way along a field line.
   Positions are integers in units of 1/u, fields are in units of 1/K. *)
EXTENDS Cotr
K == 10000
Cube(n) == n * n * n
R2(p) == Dot(p, p)
(* a thousand square roots *)
Root(n) == IF n <= 2000 THEN Isqrt(n * 1000000) ELSE 10 * Isqrt(n * 10000)
(* B = (3 x (m.x) / x^2 - m) / |x|^3 *)
FieldAt(p, u, m) ==
    LET n == R2(p)  d == Dot(m, p)
        c == [i \in 1..3 |-> Cube(u) * (3 * p[i] * d - m[i] * n)]
    IN  [i \in 1..3 |-> RDiv(RDiv(RDiv(c[i] * 1000, n) * 1000, n) * 10, Root(n))]
(* too close to the origin for these units, or not *)
Clear(p, u) == R2(p) * 4 >= 3 * u * u
FTol(w) == 3 + Abs(w) \div 500
(* m, or m stretched to a length of k *)
Stretch(B, m, k) == IF k = 0 THEN B ELSE [i \in 1..3 |-> RDiv(B[i] * k * 1000, Root(R2(m)))]
-----------------------------------------------------------------------------
(* where component c of a field sits along axis j *)
Nodes(c, j, center) == CASE center = "node" -> TRUE [] center = "cell" -> FALSE
                         [] center = "face" -> c = j [] center = "edge" -> c # j
(* staggered fields hold as many values as there are cells *)
Count(ax, center) == IF center = "node" THEN Len(ax) ELSE Len(ax) - 1
Where(ax, i, atnode) == IF atnode THEN ax[i] ELSE (ax[i] + ax[i + 1]) \div 2
Spot(axes, idx, c, center) == [j \in 1..3 |-> Where(axes[j], idx[j], Nodes(c, j, center))]
(* a scalar that is staggered is taken as one in the cells *)
SpotOf(axes, idx, c, center, vec) == IF vec THEN Spot(axes, idx, c, center) ELSE Spot(axes, idx, c, IF center = "node" THEN "node" ELSE "cell")
(* lo and hi are odd halves of the unit, so nothing sits on the border *)
InShell(p, lo, hi) == 4 * R2(p) >= lo * lo /\ (hi = 0 \/ 4 * R2(p) < hi * hi)
-----------------------------------------------------------------------------
(* along the field line through a point.  v is the point in sm, r a radius, both in thousandths *)
ToSm(P, sys, p, u) == LET w == Act(Xform(P, sys, "sm"), p) IN [i \in 1..3 |-> RDiv(w[i], 10 * u)]
RhoOf(v) == Isqrt(v[1] * v[1] + v[2] * v[2])
Len3(v) == Isqrt(v[1] * v[1] + v[2] * v[2] + v[3] * v[3])
(* the mapped point, in 1/S of the new radius; nothing when the line does not get there.
   cos^2(lat) / r is the same all along the line *)
Mapped(v, r) ==
    LET rho == RhoOf(v)  len == Len3(v)
        c0 == RDiv(S * rho, len)
        g == Isqrt(RDiv(r * S, len) * S)
        c == RDiv(c0 * g, S)
        s == Isqrt(S * S - c * c)
    IN  IF c > S THEN <<>>
        ELSE << IF rho = 0 THEN 0 ELSE RDiv(c * v[1], rho), IF rho = 0 THEN 0 ELSE RDiv(c * v[2], rho), IF v[3] < 0 THEN -s ELSE s >>
Reach(v, r) == LET c0 == RDiv(S * RhoOf(v), Len3(v)) IN RDiv(c0 * Isqrt(RDiv(r * S, Len3(v)) * S), S)
(* the sine is badly known close to the equator *)
SinTol(v, r) == LET c == Reach(v, r)  s == Isqrt(S * S - c * c) IN 20 + (IF c > S THEN 0 ELSE (12 * S) \div (IF s < 300 THEN 300 ELSE s))
CloseMap(got, v, r) ==
    LET w == Mapped(v, r) IN w # <<>> /\ Abs(got[1] - w[1]) <= 20 /\ Abs(got[2] - w[2]) <= 20
                            /\ (Abs(got[3] - w[3]) <= SinTol(v, r) \/ (Abs(v[3]) <= 3 /\ Abs(got[3] + w[3]) <= SinTol(v, r)))
=============================================================================

----------------------------- MODULE DipoleMC -----------------------------
(* Laws of the dipole on a lattice of points and moments, as a walk along field lines. *)
EXTENDS Dipole
CONSTANTS NP, NM, Radii
Line(n) == (0 - n)..n
Pts == {<<x, y, z>> : x \in Line(NP), y \in Line(NP), z \in Line(NP)} \ {<<0, 0, 0>>}
Moms == {<<x, y, z>> : x \in Line(NM), y \in Line(NM), z \in Line(NM)} \ {<<0, 0, 0>>}
VARIABLES p, m, r, q, steps
vars == <<p, m, r, q, steps>>
Neg(v) == [i \in 1..3 |-> -v[i]]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Near(a, b, t) == \A i \in 1..3 : Abs(a[i] - b[i]) <= t
Milli(v) == [i \in 1..3 |-> 1000 * v[i]]
Real(w, rr) == [i \in 1..3 |-> RDiv(w[i] * rr, S)]
Init == /\ p \in Pts /\ m \in Moms
        /\ q = Milli(p) /\ r = Len3(Milli(p)) /\ steps = 0
(* walk along the line to another radius; it is only followed from where it is well known *)
Walk == /\ steps < 2
        /\ \E k \in Radii :
             /\ Mapped(q, k) # <<>>
             /\ q' = Real(Mapped(q, k), k)
             /\ r' = k
        /\ steps' = steps + 1 /\ UNCHANGED <<p, m>>
Next == Walk
Spec == Init /\ [][Next]_vars
B == FieldAt(p, 1, m)
Even == B = FieldAt(Neg(p), 1, m)
Odd == Near(Neg(B), FieldAt(p, 1, Neg(m)), 1)
Linear == \A i \in 1..3 : LET e == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
                          IN Near(FieldAt(p, 1, Plus(m, e)), Plus(B, FieldAt(p, 1, e)), 3)
(* at the poles it is along the moment, at the equator against it, half as strong *)
Pole == Cross(p, m) = <<0, 0, 0>> => Near(B, [i \in 1..3 |-> RDiv(RDiv(2 * K * 1000 * m[i], Root(R2(p))), R2(p))], 3 + 20 \div R2(p))
Equator == Dot(p, m) = 0 => Near(B, [i \in 1..3 |-> -RDiv(RDiv(K * 1000 * m[i], Root(R2(p))), R2(p))], 3 + 20 \div R2(p))
(* twice as far is an eighth *)
Scale == Near(FieldAt(p, 2, m), [i \in 1..3 |-> 8 * B[i]], 12)
(* what stays the same along a line: the side of the equator, the longitude, and cos^2 / r *)
Side == (p[3] > 0 => q[3] >= 0) /\ (p[3] < 0 => q[3] <= 0)
Meridian == Abs(p[1] * q[2] - p[2] * q[1]) <= 4 * (Abs(p[1]) + Abs(p[2])) + 4 /\ p[1] * q[1] + p[2] * q[2] >= 0
Radius == Abs(Len3(q) - r) <= 4
Shell == LET Lm(v) == RDiv(RDiv(RhoOf(v) * 1000, Len3(v)) * RDiv(RhoOf(v) * 1000, Len3(v)), 1000)
         IN  Abs(RDiv(Lm(q) * 1000, r) - RDiv(Lm(Milli(p)) * 1000, Len3(Milli(p)))) <= 12
(* the line runs along the field of a moment on the axis *)
Tangent ==
    steps = 0 =>
      \A dr \in {RDiv(Len3(q), 50)} : LET w == Mapped(q, Len3(q) + dr)
      IN  w # <<>> =>
           LET t == [i \in 1..3 |-> Real(w, Len3(q) + dr)[i] - q[i]]
               b == FieldAt(p, 1, <<0, 0, 0 - 1>>)
               c == Cross(t, b)
           IN  Len3(t) > 3 * dr \/ \A i \in 1..3 : Abs(c[i]) <= RDiv(Len3(t) * Len3(b), 15) + 6 * Len3(b) + 8 * Len3(t)
(* there is a way back *)
Back == steps = 1 => (Mapped(q, Len3(Milli(p))) # <<>> =>
          \A w \in {Real(Mapped(q, Len3(Milli(p))), Len3(Milli(p)))} : Abs(w[1] - 1000 * p[1]) <= 25 /\ Abs(w[2] - 1000 * p[2]) <= 25 /\ (Abs(p[3]) > 0 => Abs(w[3] - 1000 * p[3]) <= 150))
(* a shell is between two balls, and the staggered points of a cell are around its center *)
Shells == \A lo, hi \in {1, 3, 5, 7} : lo < hi => (InShell(p, lo, hi) <=> (InShell(p, lo, 0) /\ ~InShell(p, hi, 0)))
Axes == << <<0, 2, 4>>, <<-2, 0, 6>>, <<2, 6, 8>> >>
Stagger == \A c, j \in 1..3 : \A i \in 1..2 :
              LET f == Spot(Axes, <<i, i, i>>, c, "face")  e == Spot(Axes, <<i, i, i>>, c, "edge")
                  n == Spot(Axes, <<i, i, i>>, c, "node")  k == Spot(Axes, <<i, i, i>>, c, "cell")
              IN  (f[j] = n[j] /\ e[j] = k[j]) \/ (f[j] = k[j] /\ e[j] = n[j])
Inv == Even /\ Odd /\ Linear /\ Pole /\ Equator /\ Scale /\ Side /\ Meridian /\ Radius /\ Shell /\ Tangent /\ Back /\ Shells /\ Stagger
=============================================================================

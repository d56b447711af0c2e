---------------------------- MODULE RotMC ----------------------------
(* The laws that make the representations agree, over a lattice of rotations. *)
EXTENDS Rot, TLC
CONSTANTS Step, Qmax
VARIABLES k, ready
Angles == {Step * i : i \in 0..((360 \div Step) - 1)}
Axes3 == {<<a, b, c>> \in (1..3) \X (1..3) \X (1..3) : a # b /\ b # c}
Pyth == {<< <<1, 2, 2>>, 3>>, << <<-2, 3, 6>>, 7>>, << <<0, 3, -4>>, 5>>, << <<8, -1, 4>>, 9>>, << <<0, 0, 1>>, 1>>, << <<0, -1, 0>>, 1>>, << <<-2, -2, 1>>, 3>>}
Quats == {q \in [1..4 -> -Qmax..Qmax] : Norm2(q) > 0}
Few == {<<1, 2, 2, 4>>, <<1, 1, -1, 1>>, <<0, 1, 2, 2>>, <<2, -3, 6, 0>>, <<3, 0, 0, -4>>}
Kinds == {<<"euler", ax, a, b, c>> : ax \in Axes3, a \in Angles, b \in Angles, c \in {0, 70, 250}}
         \cup {<<"quat", p, q>> : p \in Quats, q \in Few}
         \cup {<<"axis", u, a>> : u \in Pyth, a \in Angles}
         \cup {<<"take", u, w>> : u \in Pyth, w \in Pyth}
Init == ready = FALSE /\ k \in Kinds
Next == ~ready /\ ready' = TRUE /\ UNCHANGED k
T == 6
Laws == ready =>
    CASE k[1] = "euler" ->
            LET a == <<1000 * k[3], 1000 * k[4], 1000 * k[5]>>  M == OfAngles(k[2], a)
                rev == <<k[2][3], k[2][2], k[2][1]>>
            IN  /\ IsRot(M, T)
                /\ CloseM(OfEul(rev, <<a[3], a[2], a[1]>>), M, T)
                /\ CloseM(OfAngles(rev, <<-a[3], -a[2], -a[1]>>), Tr(M), T)
                (* the other set of angles of the same rotation *)
                /\ (k[2][1] = k[2][3] => CloseM(OfAngles(k[2], <<a[1] + 180000, -a[2], a[3] + 180000>>), M, T))
                /\ (k[2][1] # k[2][3] => CloseM(OfAngles(k[2], <<a[1] + 180000, 180000 - a[2], a[3] + 180000>>), M, T))
      [] k[1] = "quat" ->
            LET p == k[2]  q == k[3]  M == OfQuat(p)
            IN  /\ IsRot(M, T) /\ OfQuat([i \in 1..4 |-> -p[i]]) = M
                /\ CloseM(OfQuat(QMul(p, q)), Mul(M, OfQuat(q)), T)
                /\ OfQuat(<<p[1], -p[2], -p[3], -p[4]>>) = Tr(M)
                /\ Norm2(QMul(p, q)) = Norm2(p) * Norm2(q)
                /\ QMul(<<1, 0, 0, 0>>, p) = [i \in 1..4 |-> p[i]]
      [] k[1] = "axis" ->
            LET u == k[2][1]  n == k[2][2]  a == 1000 * k[3]  M == OfAxis(u, n, a)
            IN  /\ IsRot(M, T) /\ CloseV(Scaled(Act(M, Unit(u, n))), Unit(u, n), T)
                /\ CloseM(OfAxis(<<-u[1], -u[2], -u[3]>>, n, -a), M, T)
                /\ CloseM(OfUnit(Unit(u, n), a), M, T)
                /\ CloseM(Mul(M, M), OfAxis(u, n, 2 * a), T)
                (* half the angle makes the quaternion *)
                /\ LET h == a \div 2  w == Unit(u, n)
                       q == <<Cos(h), RDiv(Sin(h) * w[1], S), RDiv(Sin(h) * w[2], S), RDiv(Sin(h) * w[3], S)>>
                       t == [i \in 1..4 |-> RDiv(q[i], 50)]
                   IN  CloseM(OfQuat(t), M, 150)
                /\ \A ax \in 1..3 : CloseM(OfAxis([i \in 1..3 |-> IF i = ax THEN 1 ELSE 0], 1, a), Elem(ax, a), 1)
      [] k[1] = "take" ->
            LET a == k[2][1]  m == k[2][2]  b == k[3][1]  n == k[3][2]
            IN  ~Opposed(a, m, b, n) =>
                LET M == Taking(a, m, b, n)
                IN  /\ IsRot(M, T) /\ CloseV(Scaled(Act(M, Unit(a, m))), Unit(b, n), T)
                    /\ Abs(M[1][1] + M[2][2] + M[3][3] - S - RDiv(2 * S * Dot(a, b), m * n)) <= T
                    /\ CloseM(Taking(b, n, a, m), Tr(M), T)
=============================================================================

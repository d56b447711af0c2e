---------------------------- MODULE SeedsMC ----------------------------
(* What the descriptions promise: enough points, on the shape, nowhere twice, and meshes that close. *)
EXTENDS Seeds, TLC
CONSTANTS N
VARIABLES c, ready
PolesP == {<< <<0, 0, 1>>, 1>>, << <<1, 2, 2>>, 3>>, << <<-2, 3, 6>>, 7>>, << <<1, 0, 0>>, 1>>, << <<0, -4, 3>>, 5>>}
Spheres == [k : {"sphere"}, p0 : {<<1000, -2000, 500>>}, r : {2000}, pole : PolesP, roll : {0, 30000}, gse : {FALSE},
            t : {<<0, 180000>>, <<0, 90000>>, <<90000, 180000>>, <<30000, 120000>>}, f : {<<0, 360000>>, <<-90000, 90000>>},
            nt : 1..N, nf : {2, 4}, tp : BOOLEAN, cap : {FALSE}, ends : {"auto", "yes"}, fend : {"auto"}]
Planes == [k : {"plane"}, p0 : {<<0, 0, 0>>, <<1000, -2000, 500>>}, q : {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 2, -1, 3>>}, l : {<<-1000, 1000>>, <<0, 3000>>}, m : {<<-500, 500>>},
           nl : 1..N, nm : 1..N]
Volumes == [k : {"volume"}, lo : {<<0, 0, 0>>, <<-1000, 500, 0>>}, hi : {<<2000, 3000, 1000>>}, n : {<<a, b, d>> : a \in 1..2, b \in 1..N, d \in 1..N}]
Lines == [k : {"line"}, p0 : {<<0, 0, 0>>, <<-1000, 500, 0>>}, p1 : {<<3000, 4500, 2000>>}, len : {0}, n : 1..N]
Splines == [k : {"spline"}, knots : {<< <<0, 0, 0>>, <<3000, 0, 4000>>, <<3000, 2000, 4000>> >>}, lens : {<<5000, 2000>>}, n : 1..(2 * N)]
Patches == [k : {"patch"}, p0 : {<<0, 0, 0>>}, r : {3000}, pole : PolesP, roll : {0, 90000}, gse : {FALSE}, al : {45000, 20000}, be : {30000}, na : 1..N, nb : 1..N]
Init == ready = FALSE /\ c \in Spheres \cup Planes \cup Volumes \cup Lines \cup Splines \cup Patches
Next == ~ready /\ ready' = TRUE /\ UNCHANGED c
D2(a, b) == LET d == [i \in 1..3 |-> RDiv(a[i] - b[i], 10)] IN Dot(d, d)
Isq(a, b) == ISqrt(D2(a, b)) * 10
Distinct(P) == \A i, j \in 1..Len(P) : i # j => \E k \in 1..3 : Abs(P[i][k] - P[j][k]) > 20
Count(P) == /\ Len(P) = (IF c.k \in {"line", "spline"} THEN c.n ELSE IF c.k = "plane" THEN c.nl * c.nm ELSE IF c.k = "volume" THEN c.n[1] * c.n[2] * c.n[3]
                      ELSE IF c.k = "sphere" THEN c.nt * c.nf ELSE c.na * c.nb)
         /\ (Distinct(P) \/ (c.k = "sphere" /\ c.ends = "yes" /\ (AtPole(c.t[1]) \/ AtPole(c.t[2]))))
OnShape(P) ==
    CASE c.k = "sphere" -> \A i \in 1..Len(P) : Abs(Isq(P[i], c.p0) - c.r) <= 30
      [] c.k = "patch" -> \A i \in 1..Len(P) : Abs(Isq(P[i], c.p0) - c.r) <= 30
      [] c.k = "plane" -> \A i \in 1..Len(P) : LET w == FromFrame(c, P[i]) IN Abs(w[3]) <= 4 /\ w[1] >= c.l[1] - 4 /\ w[1] <= c.l[2] + 4 /\ Abs(w[2]) <= 504
      [] c.k = "line" -> P[1] = c.p0 /\ (c.n > 1 => P[c.n] = c.p1)
      [] c.k = "spline" -> P[1] = c.knots[1] /\ (c.n > 1 => P[c.n] = c.knots[Len(c.knots)])
      [] OTHER -> TRUE
(* every seed is one of the points of its mesh; a sphere closes and its poles are points *)
Meshes(P) ==
    (c.k # "volume" \/ (\E i \in 1..3 : c.n[i] = 1)) =>
    LET pp == IF c.k = "sphere" THEN Poles(c) ELSE <<0, 0>>  M == Mesh(c, P, pp[1], pp[2], TRUE)
    IN  /\ \A i \in 1..Len(P) : \E a \in 1..Len(M) : \E b \in 1..Len(M[1]) : M[a][b] = P[i]
        /\ \A a \in 1..Len(M) : Len(M[a]) = Len(M[1])
        /\ c.k = "sphere" =>
             LET R == IF c.tp THEN M ELSE TrM(Rev(M))
             IN  /\ (WholeTurn(c) => \A a \in 1..Len(R) : R[a][1] = R[a][Len(R[a])])
                 /\ (c.t[1] = 0 => \A b \in 1..Len(R[1]) : CloseV(R[1][b], Poles(c)[1], 4))
                 /\ (c.t[2] = 180000 /\ c.nt > 1 => \A b \in 1..Len(R[1]) : CloseV(R[Len(R)][b], Poles(c)[2], 4))
Laws == ready => LET P == Seeds(c) IN Count(P) /\ OnShape(P) /\ Meshes(P)
=============================================================================

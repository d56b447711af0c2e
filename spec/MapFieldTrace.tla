-------------------------- MODULE MapFieldTrace --------------------------
EXTENDS MapField, TraceBase
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
Is(g, w, uni) ==
    Chk("axes", g.axes, w.axes)
    \o (IF g.axes # w.axes THEN <<>> ELSE
        (IF \A i \in 1..Len(w.crd) : Near(g.crd[i], w.crd[i], 2) THEN <<>> ELSE << <<"coordinates", w.crd>> >>)
        \o Chk("values", g.dat, w.dat) \o Chk("size", g.dim, w.dim) \o Chk("centering", g.cell, w.cell)
        \o Chk("components", g.comps, w.comps)
        \o (IF uni # "" THEN Chk("kind", g.uni, uni) ELSE <<>>))
Same(e) == ChkT("input untouched", e.pure)
FldStep(f, e, w, uni, unit) ==
    IF w = Refused THEN [st |-> f, bad |-> IF e.got[1] = "exc" THEN Same(e) ELSE << <<"refuses", "exc">> >>]
    ELSE IF e.got[1] # "ok" THEN [st |-> f, bad |-> << <<"answers", "ok">> >>]
    ELSE [st |-> w, bad |-> Is(e.got[2], w, uni) \o (IF unit THEN Chk("units", e.got[2].unit, w.unit) ELSE <<>>) \o Same(e)]
(* direction of a point given as r, theta, phi is that of v, a vector in units of 1/S *)
Dirs(P, V, tol) == Len(P) = Len(V) /\ \A i \in 1..Len(P) : CloseV(P[i], V[i], tol)
Pts(f, e) ==
    LET g == e.got[2]
        bad == IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
          ELSE Chk("shape", e.got[3], e.shape) \o Same(e) \o
          CASE e.fn = "sph2cart" ->
                 LET W == [i \in 1..Len(e.pts) |-> LET q == e.pts[i] IN OfSphere(q[1], q[2], q[3])]
                 IN IF Dirs(g, W, 40) THEN <<>> ELSE << <<"point", W>> >>
            [] e.fn = "latlon2cart" ->
                 LET W == [i \in 1..Len(e.pts) |-> LET q == e.pts[i] IN OfLatLon(q[1], q[2], q[3])]
                 IN IF Dirs(g, W, 40) THEN <<>> ELSE << <<"point", W>> >>
            [] e.fn = "cart2sph" ->
                 IF /\ Len(g) = Len(e.pts)
                    /\ \A i \in 1..Len(g) : LET u == Unit(e.pts[i][1], e.pts[i][2])
                                            IN /\ Abs(g[i][1] - e.pts[i][2] * S) <= 2
                                               /\ g[i][2] >= -1 /\ g[i][2] <= 180001 /\ g[i][3] >= -180001 /\ g[i][3] <= 180001
                                               /\ CloseV(OfSphere(S, g[i][2], g[i][3]), u, 4)
                 THEN <<>> ELSE << <<"point", e.pts>> >>
            [] e.fn = "cart2latlon" ->
                 IF /\ Len(g) = Len(e.pts)
                    /\ \A i \in 1..Len(g) : LET u == Unit(e.pts[i][1], e.pts[i][2])
                                            IN /\ g[i][1] >= -90001 /\ g[i][1] <= 90001
                                               /\ CloseV(OfLatLon(S, g[i][1], g[i][2]), u, 4)
                 THEN <<>> ELSE << <<"point", e.pts>> >>
            [] e.fn = "polar" ->
                 LET W == [i \in 1..Len(e.pts) |-> LET q == e.pts[i]  lat == IF e.colat THEN 90000 - q[1] ELSE q[1]
                                                    IN <<q[2], IF e.north THEN 90000 - lat ELSE 90000 + lat>>]
                 IN IF Len(g) = Len(W) /\ \A i \in 1..Len(W) : Near(g[i], W[i], 2) THEN <<>> ELSE << <<"point", W>> >>
    IN  [st |-> f, bad |-> bad]
(* angles one by one *)
Angle(f, e) ==
    LET half == IF e.fn \in {"phi2lon", "lon2phi"} THEN 0 ELSE 90000
        ok == CASE e.fn = "theta2lat" -> InRange(e.vals, 0, 180000) [] e.fn = "lat2theta" -> InRange(e.vals, -90000, 90000) [] OTHER -> TRUE
        W == [i \in 1..Len(e.vals) |-> IF half = 0 THEN e.vals[i] ELSE 90000 - e.vals[i]]
    IN  [st |-> f, bad |-> IF ~ok THEN (IF e.got[1] = "exc" /\ e.got[2] = "ValueError" THEN <<>> ELSE << <<"refuses", "ValueError">> >>)
                           ELSE IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
                           ELSE IF Near(e.got[2], W, 2) THEN Same(e) ELSE << <<"angle", W>> >>]
(* a great circle: from a (length m) to b (length n) about the origin, evenly, the short way *)
Arc(f, e) ==
    LET g == e.got[2]  N == Len(g)
        a == e.a[1]  m == e.a[2]  b == e.b[1]  n == e.b[2]
        ua == Unit(a, m)  ub == Unit(b, n)
        c == RDiv(RDiv(S * Dot(a, b), m), n)
        U(i) == [j \in 1..3 |-> RDiv(g[i][j] * (S \div 100), e.r[i])]
        nrm == Cross(a, b)
        opposed == nrm = <<0, 0, 0>>
        X == {[i \in 1..N |-> U(i)]}
    IN  [st |-> f, bad |->
         IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
         ELSE IF N \notin {e.n, e.n + 1} THEN << <<"number", e.n>> >>
         ELSE Same(e)
              \o (IF \A i \in 1..N : Abs(e.r[i] * (N - 1) - 100 * (m * (N - i) + n * (i - 1))) <= 2 * N THEN <<>> ELSE << <<"radius", <<m, n>> >> >>)
              \o (IF \A P \in X : \A i \in 1..N : Abs(RDiv(Dot(P[i], P[i]), S) - S) <= 300 THEN <<>> ELSE << <<"distance", <<m, n>> >> >>)
              \o (IF \A P \in X : CloseV(P[1], ua, 120) /\ CloseV(P[N], ub, 120) THEN <<>> ELSE << <<"ends", <<ua, ub>> >> >>)
              \o (IF opposed \/ \A P \in X : \A i \in 1..N : Abs(Dot(P[i], nrm)) <= 130 * (Abs(nrm[1]) + Abs(nrm[2]) + Abs(nrm[3])) THEN <<>> ELSE << <<"plane", nrm>> >>)
              \o (IF N < 3 \/ \A P \in X : \A d \in {[i \in 1..(N - 1) |-> RDiv(Dot(P[i], P[i + 1]), S)]} : \A i \in 1..(N - 2) : Abs(d[i] - d[i + 1]) <= 330 THEN <<>> ELSE << <<"even", c>> >>)
              \o (IF opposed \/ \A P \in X : \A d \in {[i \in 1..N |-> RDiv(Dot(P[i], ub), S)]} : \A i \in 1..(N - 1) : d[i] <= d[i + 1] + 250 THEN <<>> ELSE << <<"short way", c>> >>)]
St(f, e) ==
    CASE e.op = "convert" -> FldStep(f, e, Convert(f, IF e.to = "map" THEN Map ELSE Sphere, e.order, e.units), e.uni, TRUE)
      [] e.op = "polar" -> LET r == FldStep(f, e, Polar(f, e.b, e.north, e.again), "", FALSE) IN [r EXCEPT !.st = f]
      [] e.op = "points" -> Pts(f, e)
      [] e.op = "angle" -> Angle(f, e)
      [] e.op = "arc" -> Arc(f, e)
EInit(i) == i
Init == TInit(EInit)
Next == TNext(St)
Spec == Init /\ [][Next]_vars
=============================================================================

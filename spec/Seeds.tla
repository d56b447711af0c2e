---------------------------- MODULE Seeds ----------------------------
(* Sets of seed points.  A description (a line, a plane, part of a sphere ...) stands for a
   sequence of points in space; the same sequence laid out over its local axes is a field,
   and over two axes a mesh.  Lengths are in thousandths, angles in thousandths of a degree. *)
EXTENDS Rot
(* k-th (from 0) of n values from a to b *)
Lin(a, b, n, k) == IF n = 1 THEN a ELSE a + RDiv((b - a) * k, n - 1)
LinSeq(a, b, n) == [k \in 1..n |-> Lin(a, b, n, k - 1)]
(* without the last *)
OpenSeq(a, b, n) == [k \in 1..n |-> a + RDiv((b - a) * (k - 1), n)]
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
(* all pairs, the second running fastest *)
Outer(a, b) == [k \in 1..(Len(a) * Len(b)) |-> <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]
Outer3(a, b, c) == [k \in 1..(Len(a) * Len(b) * Len(c)) |->
                       <<a[((k - 1) \div (Len(b) * Len(c))) + 1], b[(((k - 1) \div Len(c)) % Len(b)) + 1], c[((k - 1) % Len(c)) + 1]>>]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Map(f(_), q) == [k \in 1..Len(q) |-> f(q[k])]
RECURSIVE ISqrtI(_, _)
ISqrtI(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE ISqrtI(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtI(n, n)
-----------------------------------------------------------------------------
(* explicit points: rows of x, y, z unless there are three rows, which then are the x, the y and the z *)
Listed(m) == IF Len(m) = 3 THEN [k \in 1..Len(m[1]) |-> <<m[1][k], m[2][k], m[3][k]>>] ELSE m
-----------------------------------------------------------------------------
(* along the segments between knots, evenly in length; len[i] is that of the i-th segment *)
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Along(knots, len, num, den) ==   (* at num/den of the whole *)
    LET tot == SumTo(len, Len(len))
        t == tot * num   (* over den *)
        i == IF num = den THEN Len(len) ELSE CHOOSE j \in 1..Len(len) : SumTo(len, j - 1) * den <= t /\ t < SumTo(len, j) * den
        r == t - SumTo(len, i - 1) * den
    IN  [c \in 1..3 |-> knots[i][c] + RDiv((knots[i + 1][c] - knots[i][c]) * r, len[i] * den)]
-----------------------------------------------------------------------------
(* a frame is <<q, n>>: the columns of the matrix of the quaternion are the directions L, M, N *)
InFrame(c, F, l) == Plus(c.p0, Scaled(Act(F, l)))
FromFrame(c, p) == Scaled(Act(Tr(OfQuat(c.q)), [i \in 1..3 |-> p[i] - c.p0[i]]))
-----------------------------------------------------------------------------
(* spheres.  c.t and c.f are the limits in polar angle and in azimuth, c.ends says whether the
   first and the last polar angle are those limits, c.fend whether the last azimuth is *)
AtPole(a) == a = 0 \/ a = 180000
WholeTurn(c) == c.f[2] - c.f[1] = 360000
TEnds(c) == CASE c.ends = "auto" -> IF c.cap THEN <<TRUE, FALSE>> ELSE <<~AtPole(c.t[1]), ~AtPole(c.t[2])>>
              [] c.ends = "yes" -> <<TRUE, TRUE>>
              [] c.ends = "no" -> <<FALSE, FALSE>>
              [] c.ends = "yes no" -> <<TRUE, FALSE>>
              [] c.ends = "no yes" -> <<FALSE, TRUE>>
FEnd(c) == CASE c.fend = "auto" -> ~WholeTurn(c) [] c.fend = "yes" -> TRUE [] c.fend = "no" -> FALSE
Thetas(c) == LET e == TEnds(c)  a == c.t[1]  b == c.t[2]  n == c.nt
             IN  IF e[1] /\ e[2] THEN LinSeq(a, b, n)
                 ELSE IF e[1] THEN OpenSeq(a, b, n)
                 ELSE IF e[2] THEN Rev(OpenSeq(b, a, n))
                 ELSE [k \in 1..n |-> a + RDiv((b - a) * (2 * k - 1), 2 * n)]
Phis(c) == IF FEnd(c) THEN LinSeq(c.f[1], c.f[2], c.nf) ELSE OpenSeq(c.f[1], c.f[2], c.nf)
(* pole is <<direction, its length>> in whole numbers; the turn about it is in c.roll *)
PoleFrame(c) == Mul(OfAxis(c.pole[1], c.pole[2], c.roll + (IF c.gse THEN 180000 ELSE 0)), Taking(<<0, 0, 1>>, 1, c.pole[1], c.pole[2]))
OnSphere(c, F, th, ph) ==
    LET u == <<RDiv(Sin(th) * Cos(ph), S), RDiv(Sin(th) * Sin(ph), S), Cos(th)>>
    IN  Plus(c.p0, Map(LAMBDA x : RDiv(x * c.r, S), Scaled(Act(F, u))))
Poles(c) == <<Plus(c.p0, [i \in 1..3 |-> RDiv(c.r * c.pole[1][i], c.pole[2])]), Plus(c.p0, [i \in 1..3 |-> -RDiv(c.r * c.pole[1][i], c.pole[2])])>>
SkipsPole(c, i) == AtPole(c.t[i]) /\ ~TEnds(c)[i]
(* a patch of a sphere, by two angles of elevation *)
OnPatch(c, F, al, be) ==
    LET z2 == (Cos(2 * al) + Cos(2 * be)) \div 2   \* 1 - sin^2 al - sin^2 be
        u == <<Sin(al), Sin(be), ISqrt(S * z2)>>
    IN  Plus(c.p0, Map(LAMBDA w : RDiv(w * c.r, S), Scaled(Act(F, u))))
-----------------------------------------------------------------------------
(* the axes of the local representation, outermost first, and the points over them *)
LocalAxes(c) ==
    CASE c.k = "pts" -> << <<"x", IF c.own # <<>> THEN c.own ELSE [k \in 1..Len(Listed(c.m)) |-> 1000 * (k - 1)]>> >>
      [] c.k = "mesh" -> << <<"x", [k \in 1..Len(c.m[1]) |-> 1000 * (k - 1)]>>, <<"y", [k \in 1..Len(c.m[1][1]) |-> 1000 * (k - 1)]>> >>
      [] c.k = "rect" -> << <<"x", [k \in 1..Len(c.m[1]) |-> c.m[c.along[1]][k][1]]>>, <<"y", c.m[c.along[2]][1]>> >>
      [] c.k = "line" -> << <<"x", LinSeq(0, c.len, c.n)>> >>
      [] c.k = "spline" -> << <<"s", LinSeq(0, SumTo(c.lens, Len(c.lens)), c.n)>> >>
      [] c.k = "plane" -> << <<"x", LinSeq(c.l[1], c.l[2], c.nl)>>, <<"y", LinSeq(c.m[1], c.m[2], c.nm)>>, <<"z", <<0>> >> >>
      [] c.k = "volume" -> [i \in 1..3 |-> <<(<<"x", "y", "z">>)[i], LinSeq(c.lo[i], c.hi[i], c.n[i])>>]
      [] c.k = "sphere" -> IF c.tp THEN << <<"theta", Thetas(c)>>, <<"phi", Phis(c)>> >> ELSE << <<"phi", Phis(c)>>, <<"theta", Thetas(c)>> >>
      [] c.k = "patch" -> << <<"x", LinSeq(-c.al, c.al, c.na)>>, <<"y", LinSeq(-c.be, c.be, c.nb)>> >>
(* the axes of a mesh of the points *)
Flat(c) == CHOOSE i \in 1..3 : c.n[i] = 1 /\ \A j \in 1..(i - 1) : c.n[j] # 1
UVShape(c) ==
    CASE c.k \in {"mesh", "rect"} -> <<Len(c.m[1]), Len(c.m[1][1])>>
      [] c.k \in {"line", "spline"} -> <<c.n, 1>>
      [] c.k = "plane" -> <<c.nl, c.nm>>
      [] c.k = "volume" -> LET f == Flat(c) IN IF f = 1 THEN <<c.n[2], c.n[3]>> ELSE IF f = 2 THEN <<c.n[1], c.n[3]>> ELSE <<c.n[1], c.n[2]>>
      [] c.k = "sphere" -> IF c.tp THEN <<c.nt, c.nf>> ELSE <<c.nf, c.nt>>
      [] c.k = "patch" -> <<c.na, c.nb>>
(* where a pair of surface coordinates is *)
Frame(c) == IF c.k = "plane" THEN OfQuat(c.q) ELSE IF c.k \in {"sphere", "patch"} THEN PoleFrame(c) ELSE Id3
OfUV(c, F, p) ==
    CASE c.k = "line" -> [i \in 1..3 |-> c.p0[i] + RDiv((c.p1[i] - c.p0[i]) * p[1], 1000)]
      [] c.k = "spline" -> Along(c.knots, c.lens, p[1] \div 20, 50)
      [] c.k = "plane" -> InFrame(c, F, <<p[1], p[2], 0>>)
      [] c.k = "volume" -> LET f == Flat(c) IN IF f = 1 THEN <<c.lo[1], p[1], p[2]>> ELSE IF f = 2 THEN <<p[1], c.lo[2], p[2]>> ELSE <<p[1], p[2], c.lo[3]>>
      [] c.k = "sphere" -> IF c.tp THEN OnSphere(c, F, p[1], p[2]) ELSE OnSphere(c, F, p[2], p[1])
      [] c.k = "patch" -> OnPatch(c, F, p[1], p[2])
Seeds(c) ==
    CASE c.k = "pts" -> Listed(c.m)
      [] c.k \in {"mesh", "rect"} -> LET w == Len(c.m[1][1])
                                     IN  [k \in 1..(Len(c.m[1]) * w) |-> [i \in 1..3 |-> c.m[i][((k - 1) \div w) + 1][((k - 1) % w) + 1]]]
      [] c.k = "line" -> [k \in 1..c.n |-> [i \in 1..3 |-> Lin(c.p0[i], c.p1[i], c.n, k - 1)]]
      [] c.k = "spline" -> [k \in 1..c.n |-> IF c.n = 1 THEN c.knots[1] ELSE Along(c.knots, c.lens, k - 1, c.n - 1)]
      [] c.k = "volume" -> LET a == LocalAxes(c) IN Outer3(a[1][2], a[2][2], a[3][2])
      [] OTHER -> LET a == LocalAxes(c)  F == Frame(c)  q == Outer(a[1][2], a[2][2]) IN [k \in 1..Len(q) |-> OfUV(c, F, q[k])]
Size(c) == Len(Seeds(c))
-----------------------------------------------------------------------------
(* meshes: a row (sequence of columns) per first axis.  Spheres get back the poles they leave
   out, are closed where they go around, and face outward *)
Rows(q, w) == [i \in 1..(Len(q) \div w) |-> SubSeq(q, (i - 1) * w + 1, i * w)]
TrM(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
(* m has a row per polar angle; lo and hi are what stands at the poles *)
Completed(c, m, lo, hi) ==
    LET one(x) == <<[k \in 1..Len(m[1]) |-> x]>>
        p == (IF SkipsPole(c, 1) THEN one(lo) ELSE <<>>) \o m \o (IF SkipsPole(c, 2) THEN one(hi) ELSE <<>>)
    IN  IF WholeTurn(c) /\ ~FEnd(c) THEN [i \in 1..Len(p) |-> p[i] \o <<p[i][1]>>] ELSE p
Mesh(c, vals, lo, hi, fill) ==
    LET m == Rows(vals, UVShape(c)[2])
    IN  IF c.k # "sphere" \/ ~fill THEN m
        ELSE IF c.tp THEN Completed(c, m, lo, hi)
        ELSE Rev(TrM(Completed(c, TrM(m), lo, hi)))
RECURSIVE SumQ(_, _)
SumQ(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumQ(q, k - 1)
Mean(q) == RDiv(SumQ(q, Len(q)), Len(q))
ArrMesh(c, vals, fill) ==
    IF c.k # "sphere" THEN Mesh(c, vals, 0, 0, fill)
    ELSE LET m == Rows(vals, UVShape(c)[2])  t == IF c.tp THEN m ELSE TrM(m)
         IN  Mesh(c, vals, Mean(t[1]), Mean(t[Len(t)]), fill)
PtMesh(c, fill) == LET p == IF c.k = "sphere" THEN Poles(c) ELSE <<0, 0>> IN Mesh(c, Seeds(c), p[1], p[2], fill)
=============================================================================

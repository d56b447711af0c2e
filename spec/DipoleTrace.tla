---------------------------- MODULE DipoleTrace ----------------------------
EXTENDS Dipole, TraceBase
Idx(axes, center) == {<<i, j, k>> : i \in 1..Count(axes[1], center), j \in 1..Count(axes[2], center), k \in 1..Count(axes[3], center)}
Dims(axes, center) == [j \in 1..3 |-> Count(axes[j], center)]
At(d, x) == d[x[1]][x[2]][x[3]]
Fit(d, axes, center) == /\ Len(d) = Count(axes[1], center)
                        /\ \A i \in 1..Len(d) : /\ Len(d[i]) = Count(axes[2], center)
                                                /\ \A j \in 1..Len(d[i]) : Len(d[i][j]) = Count(axes[3], center)
(* the first one of a set of complaints *)
One(bad) == IF bad = {} THEN <<>> ELSE <<CHOOSE b \in bad : TRUE>>
(* a moment given by the time points along the axis of the sm system of that time, to the south *)
Axis(e, sys) == LET M == Xform(Still(e.ang[1], e.ang[2]), "sm", sys) IN <<-M[1][3], -M[2][3], -M[3][3]>>
Unit3(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Want(e, x) ==
    IF e.timed
    THEN LET w == Axis(e, e.tsys)  b == [j \in 1..3 |-> FieldAt(x, e.u, Unit3(j))]
         IN  [i \in 1..3 |-> e.strength * RDiv(w[1] * b[1][i] + w[2] * b[2][i] + w[3] * b[3][i], S)]
    ELSE Stretch(FieldAt(x, e.u, e.m), e.m, e.strength)
Slack(e) == IF e.timed THEN 4 * e.strength ELSE 0
(* the values of the field on its points; where the mask says no, what was there before *)
Masked(e, x, c) ==
    CASE e.mask = "none" -> TRUE
      [] e.mask = "vec" -> InShell(SpotOf(e.axes, x, c, e.center, TRUE), e.lo, e.hi)
      [] e.mask = "scalar" -> InShell(SpotOf(e.axes, x, c, e.center, FALSE), e.lo, e.hi)
FillBad(e) ==
    {b \in {<<"field", c, x, IF Masked(e, x, c) THEN Want(e, SpotOf(e.axes, x, c, e.center, TRUE))[c] ELSE e.before * K>>
            : c \in 1..3, x \in {y \in Idx(e.axes, e.center) : \A d \in 1..3 : Clear(SpotOf(e.axes, y, d, e.center, TRUE), e.u)}} :
       Abs(At(e.got[2][b[2]], b[3]) - b[4]) > FTol(b[4]) + Slack(e)}
Fill(e) ==
    IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
    ELSE IF ~(\A c \in 1..3 : Fit(e.got[2][c], e.axes, e.center)) THEN << <<"shape", Dims(e.axes, e.center)>> >>
    ELSE One(FillBad(e)) \o Chk("center", e.got[3], e.center)
         \o (IF e.made THEN Chk("system", e.got[4], e.sys)
                            \o (IF CloseV(e.got[5], Stretch([i \in 1..3 |-> S * e.m[i]], e.m, 1), 20) THEN <<>> ELSE << <<"moment", e.m>> >>)
             ELSE Chk("same object", e.got[4], TRUE))
CalcBad(e) == {b \in {<<"field", i, Want(e, e.pts[i])>> : i \in {i \in 1..Len(e.pts) : Clear(e.pts[i], e.u)}} :
                 \E j \in 1..3 : Abs(e.got[2][b[2]][j] - b[3][j]) > FTol(b[3][j]) + Slack(e)}
Calc(e) ==
    IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
    ELSE IF Len(e.got[2]) # Len(e.pts) THEN << <<"points", Len(e.pts)>> >>
    ELSE One(CalcBad(e)) \o Chk("shape", e.got[3], IF e.one THEN <<3>> ELSE <<Len(e.pts), 3>>)
MaskBad(e) == {b \in {<<"mask", c, x, InShell(SpotOf(e.axes, x, c, e.center, e.vec), e.lo, e.hi)>>
                      : c \in (IF e.vec THEN 1..3 ELSE {1}), x \in Idx(e.axes, e.center)} :
                 (At(e.got[2][b[2]], b[3]) = 1) # b[4]}
MaskOf(e) ==
    IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
    ELSE IF ~(\A c \in 1..Len(e.got[2]) : Fit(e.got[2][c], e.axes, e.center)) THEN << <<"shape", Dims(e.axes, e.center)>> >>
    ELSE One(MaskBad(e)) \o Chk("kind", e.got[3], "bool")
(* alpha a + beta b where the mask says so; values in halves *)
RegBad(e) == {b \in {<<"value", c, x, IF e.mask = <<>> \/ At(e.mask[IF Len(e.mask) = 1 THEN 1 ELSE c], x) = 1
                                      THEN (e.alpha * At(e.a[c], x) + e.beta * (IF e.b = <<>> THEN e.bnum ELSE At(e.b[c], x)))
                                      ELSE 2 * At(e.out[c], x)>>
                     : c \in 1..Len(e.a), x \in Idx(e.axes, "node")} : At(e.got[2][b[2]], b[3]) # b[4]}
Reg(e) == IF e.got[1] # "ok" THEN << <<"answers", "ok">> >> ELSE One(RegBad(e)) \o Chk("same object", e.got[3], e.out # <<>>)
-----------------------------------------------------------------------------
Angles(e) == Still(e.mu, e.psi)
(* longitude f, in thousandths of a degree, of a point v *)
SameLon(f, v) == LET c == Cos(f)  sn == Sin(f)  rho == RhoOf(v)
                 IN  rho <= 30 \/ (/\ Abs(RDiv(c * rho, S) - v[1]) <= 4 + rho \div 700
                                   /\ Abs(RDiv(sn * rho, S) - v[2]) <= 4 + rho \div 700)
(* on the sphere: r, theta, phi *)
SphBad(e, v, g) ==
    IF Abs(g[1] - e.r) > 2 THEN << <<"radius", e.r>> >>
    ELSE IF g[2] < 0 \/ g[2] > 180000 \/ g[3] < 0 \/ g[3] > 360000 THEN << <<"range", <<180000, 360000>>>> >>
    ELSE IF CloseMap(<<Sin(g[2]), 0, Cos(g[2])>>, <<RhoOf(v), 0, v[3]>>, e.r) /\ SameLon(g[3], v) THEN <<>>
    ELSE << <<"line", Mapped(v, e.r)>> >>
(* cartesian, in thousandths, back in the system of the points *)
CartBad(e, v, g) ==
    LET w == ToSm(Angles(e), e.sys, g, 1)
        n == [i \in 1..3 |-> RDiv(RDiv(w[i] * (S \div 100), e.r), 10)]
    IN  IF Abs(Len3(g) - e.r) > 3 THEN << <<"radius", e.r>> >>
        ELSE IF CloseMap(n, v, e.r) THEN <<>> ELSE << <<"line", Mapped(v, e.r)>> >>
Never(v, r) == Reach(v, r) > S + 12
Maybe(v, r) == Abs(Reach(v, r) - S) <= 12
PointBad(e, i) ==
    LET v == ToSm(Angles(e), e.sys, e.pts[i], e.u)  g == e.got[2][i]
    IN  IF Never(v, e.r) THEN (IF g = <<>> THEN <<>> ELSE << <<"out of reach", i>> >>)
        ELSE IF g = <<>> THEN (IF Maybe(v, e.r) THEN <<>> ELSE << <<"reaches", i, Mapped(v, e.r)>> >>)
        ELSE IF Maybe(v, e.r) THEN <<>>
        ELSE IF e.sph THEN SphBad(e, v, g) ELSE CartBad(e, v, g)
RECURSIVE Each(_, _)
Each(e, i) == IF i > Len(e.pts) THEN <<>> ELSE LET b == PointBad(e, i) IN IF b # <<>> THEN b ELSE Each(e, i + 1)
Map(e) == IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
          ELSE IF Len(e.got[2]) # Len(e.pts) THEN << <<"points", Len(e.pts)>> >> ELSE Each(e, 1)
(* L shell, r, latitude, longitude *)
ShellBad(e, i) ==
    LET v == ToSm(Angles(e), e.sys, e.pts[i], e.u)  g == e.got[2][i]  len == Len3(v)
        c2 == LET c == RDiv(S * RhoOf(v), len) IN RDiv(c * c, S)
    IN  IF Abs(g[2] - len) > 4 THEN << <<"radius", len>> >>
        ELSE IF Abs(g[3]) > 90000 \/ Abs(RDiv(Sin(g[3]) * len, S) - v[3]) > 6 + len \div 500 THEN << <<"latitude", v>> >>
        ELSE IF ~SameLon(g[4], v) THEN << <<"longitude", v>> >>
        ELSE IF c2 > 500 /\ g[1] >= 0 /\ Abs(RDiv(g[1] * c2, S) - len) > 4 + len \div 60 THEN << <<"shell", c2>> >> ELSE <<>>
RECURSIVE Shells(_, _)
Shells(e, i) == IF i > Len(e.pts) THEN <<>> ELSE LET b == ShellBad(e, i) IN IF b # <<>> THEN b ELSE Shells(e, i + 1)
Lsrlp(e) == IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
            ELSE IF Len(e.got[2]) # Len(e.pts) THEN << <<"points", Len(e.pts)>> >> ELSE Shells(e, 1)
(* the value of a linear field where the line gets to: c[4] + c . q, q in thousandths of the system of the points *)
FromSm(e, w) == LET M == Xform(Angles(e), "sm", e.sys)  q == [i \in 1..3 |-> RDiv(w[i] * e.r, S)]
                IN  [i \in 1..3 |-> RDiv(Act(M, q)[i], S)]
ValueBad(e, i) ==
    LET v == ToSm(Angles(e), e.sys, e.pts[i], e.u)  g == e.got[2][i]
    IN  IF Never(v, e.r) THEN (IF e.fill = <<>> \/ g = e.fill THEN <<>> ELSE << <<"filled", e.fill>> >>)
        ELSE IF Maybe(v, e.r) \/ Abs(v[3]) <= 3 THEN <<>>
        ELSE IF g = <<>> THEN << <<"reaches", i>> >>
        ELSE LET w == Mapped(v, e.r)
                 t == 12 + ((SinTol(v, e.r) * e.r) \div 2000)
             IN  IF ~e.sph
                 THEN LET q == FromSm(e, w)  want == 1000 * e.c[4] + e.c[1] * q[1] + e.c[2] * q[2] + e.c[3] * q[3]
                      IN  IF Abs(g[1] - want) <= t * (Abs(e.c[1]) + Abs(e.c[2]) + Abs(e.c[3])) THEN <<>> ELSE << <<"value", i, want>> >>
                 ELSE (* the fields on a sphere are an angle each, in thousandths of a degree *)
                      IF e.c = <<0, 0, 1, 0>> THEN (IF SameLon(g[1], v) \/ RhoOf(v) < 200 THEN <<>> ELSE << <<"longitude", i, v>> >>)
                      ELSE (IF CloseMap(<<Sin(g[1]), 0, Cos(g[1])>>, <<RhoOf(v), 0, v[3]>>, e.r) THEN <<>> ELSE << <<"colatitude", i, w>> >>)
RECURSIVE Values(_, _)
Values(e, i) == IF i > Len(e.pts) THEN <<>> ELSE LET b == ValueBad(e, i) IN IF b # <<>> THEN b ELSE Values(e, i + 1)
Value(e) == IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
            ELSE IF Len(e.got[2]) # Len(e.pts) THEN << <<"points", Len(e.pts)>> >> ELSE Values(e, 1)
Judge(i0, e) ==
    CASE e.op = "fill" -> Fill(e) [] e.op = "calc" -> Calc(e) [] e.op = "mask" -> MaskOf(e) [] e.op = "region" -> Reg(e)
      [] e.op = "map" -> Map(e) [] e.op = "lsrlp" -> Lsrlp(e) [] e.op = "value" -> Value(e)
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

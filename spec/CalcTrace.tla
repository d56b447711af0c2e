----------------------------- MODULE CalcTrace -----------------------------
(* independent events: one operation of the calculator each.  e.a, e.b: fields; values of results come scaled by
   e.sc and rounded; 999999 stands for no (finite) value *)
EXTENDS TraceBase, Calc
NAN == 999999
Abs(x) == IF x < 0 THEN -x ELSE x
KindF(e, F) == IF e.got[1] = "exc" THEN << <<"runs", TRUE>> >> ELSE ChkT("kind", e.got[1] = "fld")
(* a field on grid ax, nc components, at the places of e.center *)
Grid(e, ax, nc, time) ==
    IF e.got[1] # "fld" THEN << <<"runs", TRUE>> >>
    ELSE Chk("where", e.got[2].ax, ax) \o Chk("comps", e.got[2].nc, nc) \o Chk("center", e.got[2].center, e.center)
         \o Chk("time", e.got[2].time, time)
Vals(e, v) == IF e.got[1] # "fld" THEN <<>> ELSE Chk("values", e.got[2].v, v)
Like(e, F) == Grid(e, F.ax, F.nc, e.time) \o Vals(e, F.v)
Val(e, exp) == IF e.got[1] = "ok" THEN Chk("values", e.got[2], exp) ELSE << <<"runs", TRUE>> >>
(* value by value, by a test *)
Each(e, n, T(_, _)) ==
    IF e.got[1] # "fld" THEN <<>>
    ELSE IF Len(e.got[2].v) # n THEN << <<"size", n>> >>
    ELSE ChkT("values", \A k \in 1..n : T(k, e.got[2].v[k]) = TRUE)
Number(e, T(_)) == IF e.got[1] # "num" THEN << <<"runs", TRUE>> >> ELSE ChkT("value", T(e.got[2]) = TRUE)
BB(b, A) == IF b.k = "num" THEN Num(A, b.x) ELSE b.f
Times(k, F) == Un(LAMBDA x : k * x, F)
Cx(k, nc) == (k - 1) \div nc + 1

Judge(init, e) ==
    LET A == e.a
        pure == ChkT("pure", e.pure)
        S == e.sc
        R ==
        CASE e.op = "neg" -> Like(e, Un(LAMBDA x : -S * x, A))
          [] e.op = "abs_val" -> Like(e, Un(LAMBDA x : S * Abs(x), A))
          [] e.op = "add" -> Like(e, Times(S, Sum(A, BB(e.b, A))))
          [] e.op = "diff" -> Like(e, Times(S, Sub(A, BB(e.b, A))))
          [] e.op = "rdiff" -> Like(e, Un(LAMBDA x : S * (e.b.x - x), A))
          [] e.op = "mul" -> Like(e, Times(S, Prod(A, BB(e.b, A))))
          [] e.op = "abs_diff" -> Like(e, Un(LAMBDA x : S * Abs(x), Sub(A, BB(e.b, A))))
          [] e.op = "relative_diff" ->
                LET D == Sub(A, BB(e.b, A))
                    X == Prod(A, Bin(LAMBDA x, y : 1, D, D))
                IN  Grid(e, D.ax, D.nc, e.time) \o Each(e, Len(D.v), LAMBDA k, g : g * X.v[k] = S * D.v[k])
          [] e.op = "axpby" -> Like(e, Times(S, Sum(Times(e.x, A), Times(e.y, e.b.f))))
          [] e.op = "abs_max" -> Number(e, LAMBDA g : g = MaxOf(Un(Abs, A).v) * S)
          [] e.op = "abs_min" -> Number(e, LAMBDA g : g = MinOf(Un(Abs, A).v) * S)
          [] e.op = "dot" -> Like(e, Times(S, Dot(A, e.b.f)))
          [] e.op = "cross" -> Like(e, Times(S, Cross(A, e.b.f)))
          [] e.op = "magnitude" ->
                LET Q == Square(A) IN Grid(e, A.ax, 0, e.time) \o Each(e, Len(Q.v), LAMBDA k, g : IsRoot(g, S, Q.v[k]))
          [] e.op = "normalize" ->
                LET Q == Square(A)
                IN  Grid(e, A.ax, 3, e.time)
                    \o Each(e, Len(A.v), LAMBDA k, g : IF Q.v[Cx(k, 3)] = 0 THEN g = NAN ELSE IsOverRoot(g, S, A.v[k], Q.v[Cx(k, 3)]))
          [] e.op = "project" ->
                LET Q == Square(e.b.f)
                    D == Dot(A, e.b.f)
                IN  Grid(e, A.ax, 0, e.time)
                    \o Each(e, Len(D.v), LAMBDA k, g : IF Q.v[k] = 0 THEN g = NAN ELSE IsOverRoot(g, S, D.v[k], Q.v[k]))
          [] e.op = "project_vector" ->
                LET B == e.b.f
                    Q == Square(B)
                    D == Dot(A, B)
                IN  Grid(e, A.ax, 3, e.time)
                    \o Each(e, Len(A.v), LAMBDA k, g : IF Q.v[Cx(k, 3)] = 0 THEN g = NAN
                                                       ELSE Abs(g * Q.v[Cx(k, 3)] - S * D.v[Cx(k, 3)] * B.v[k]) <= Q.v[Cx(k, 3)])
          [] e.op = "grad" -> Like(e, Grad(A, e.bnd))
          [] e.op = "div" -> Like(e, Div(A, e.bnd))
          [] e.op = "curl" -> Like(e, Curl(A, e.bnd))
          [] e.op = "conv" -> Like(e, Convect(A, IF e.b.k = "fld" THEN e.b.f ELSE A, e.bnd))
          [] e.op = "jac" -> Val(e, Jacobian(A, e.ix))
          [] e.op = "lin" -> Val(e,
                CASE e.f = "jac" -> [c \in 1..3 |-> [a \in 1..3 |-> S * e.J[c][a]]]
                  [] e.f = "div" -> S * (e.J[1][1] + e.J[2][2] + e.J[3][3])
                  [] e.f = "curl" -> [c \in 1..3 |-> S * (e.J[Nxt(Nxt(c))][Nxt(c)] - e.J[Nxt(c)][Nxt(Nxt(c))])])
          [] e.op = "extend" ->
                LET SA == {e.axes[i] : i \in 1..Len(e.axes)}
                    ax == GrownAx(A, SA, e.nl, e.nh, e.corder)
                    d == [i \in 1..Len(ax) |-> Len(ax[i].p)] \o <<C1(A)>>
                IN  Grid(e, ax, A.nc, e.time)
                    \o Each(e, ProdOf(d), LAMBDA k, g : LET ix == Place(k - 1, d)
                                                        IN  Corner(A, SA, e.nl, e.nh, ix) \/ g = Grown(A, SA, e.nl, e.nh, e.order, ix))
          [] e.op = "fc2cc" ->
                LET ax == Lead(A.ax)
                    d == [i \in 1..3 |-> Len(ax[i].p)] \o <<3>>
                IN  Grid(e, ax, 3, e.time) \o Vals(e, Build(d, LAMBDA ix : (S \div 2) * FaceMean2(A, SubSeq(ix, 1, 3), ix[4] + 1)))
          [] e.op = "ec2cc" ->
                LET ax == Lead(A.ax)
                    d == [i \in 1..3 |-> Len(ax[i].p)] \o <<3>>
                IN  Grid(e, ax, 3, e.time) \o Vals(e, Build(d, LAMBDA ix : (S \div 4) * EdgeMean4(A, SubSeq(ix, 1, 3), ix[4] + 1)))
          [] e.op = "div_fc" ->
                LET ax == Lead(A.ax)
                    d == [i \in 1..3 |-> Len(ax[i].p)] \o <<1>>
                    w(ix, c) == e.nodes[c][ix[c] + 2] - e.nodes[c][ix[c] + 1]
                    t(ix, c) == IF Len(A.ax[c].p) = 1 THEN 0
                                ELSE QDiv(2 * L * (Get(A.v, Full(A), UpFrom(A, ix, {c}) \o <<c - 1>>) - Get(A.v, Full(A), ix \o <<c - 1>>)), w(ix, c))
                IN  Grid(e, ax, 0, e.time) \o Vals(e, Build(d, LAMBDA ix : LET i3 == SubSeq(ix, 1, 3) IN t(i3, 1) + t(i3, 2) + t(i3, 3)))
          [] e.op = "along" -> Val(e, [i \in 1..Len(e.lines) |-> Along8(e.lines[i], e.k0, e.k)])
          [] e.op = "mags" -> Val(e, [i \in 1..Len(e.lines) |-> e.m * Along8(e.lines[i], e.k0, e.k)])
          [] e.op = "work" -> Val(e, [i \in 1..Len(e.lines) |-> Work8(e.lines[i], e.k0, e.k)])
          [] e.op = "resample" -> Val(e, [i \in 1..Len(e.lines) |-> Resampled(e.lines[i], e.n[i])])
    IN  R \o pure
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

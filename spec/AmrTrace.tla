---------------------------- MODULE AmrTrace ----------------------------
EXTENDS Amr, TraceBase
SS == 1000
(* ---- neighbours *)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 ^ n
Row(nb, n) == [x \in 1..n |-> nb[x] + 1]
JSkel(e) ==
    LET P == e.b
        g == e.got[2]
        n == Len(P)
        nd == Len(P[1].lo)
        sets == \A i \in 1..n : g.nr[i] = Cardinality(Neighbors(P, i)) /\ {g.nb[i][x] + 1 : x \in 1..g.nr[i]} = Neighbors(P, i)
        (* which axes touch: bit 6 + axis; on which side: 1 or 2 in two bits per axis *)
        at(i, x) == g.mask[i][x]
        axes(i, x, rev) == {k \in 1..nd : (at(i, x) \div Pow2(6 + (IF rev THEN nd - k ELSE k - 1))) % 2 = 1}
        axisOk(rev) == \A i \in 1..n : \A x \in 1..g.nr[i] : axes(i, x, rev) = Touching(P[i], P[g.nb[i][x] + 1])
        sideOf(i, x, k) == (at(i, x) \div Pow2(2 * (k - 1))) % 4
        sideOk(fl) == \A i \in 1..n : \A x \in 1..g.nr[i] : \A k \in 1..nd :
                LET q == P[g.nb[i][x] + 1]
                    w == Side(P[i], q, k)
                IN  IF k \notin Touching(P[i], q) THEN sideOf(i, x, k) = 0
                    ELSE IF Mid(P[i], k) = Mid(q, k) THEN TRUE
                    ELSE sideOf(i, x, k) = (IF fl THEN Flip(w) ELSE w)
    IN  IF e.got[1] # "ok" THEN << <<"runs", TRUE>> >>
        ELSE Chk("extent", <<g.gl, g.gh>>, <<GlobalLo(P), GlobalHi(P)>>)
             \o ChkT("rows", Len(g.nr) = n)
             \o (IF Len(g.nr) # n THEN <<>>
                 ELSE IF ~sets THEN << <<"neighbours", [i \in 1..n |-> Neighbors(P, i)]>> >>
                 ELSE IF e.thin THEN <<>>
                 ELSE ChkT("axes", axisOk(FALSE) \/ axisOk(TRUE)) \o ChkT("sides", sideOk(FALSE) \/ sideOk(TRUE)))
(* ---- slices *)
Sorted(C, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in C)
Empty(r) == r[1] = "fld" /\ r[2].v = <<>>
JSlice(e) ==
    LET P == e.b
        n == Len(P)
        many(C) == LET q == Sorted(C, n) IN SelectSeq([x \in 1..Len(q) |-> e.each[q[x]]], LAMBDA x : ~Empty(x))
        (* reduced: without the axes along which no piece has an extent *)
        flat(r, a) == \A x \in 1..Len(r) : \E i \in 1..Len(r[x][2].ax) : r[x][2].ax[i].n = a /\ Len(r[x][2].ax[i].p) = 1
        red(r) == [x \in 1..Len(r) |-> <<"fld", [r[x][2] EXCEPT !.ax = SelectSeq(@, LAMBDA z : ~flat(r, z.n))]>>]
        want(C) == IF Cardinality(C) = 1 THEN e.one[CHOOSE i \in C : TRUE]
                   ELSE <<"amr", IF e.how = "slice_reduce" THEN red(many(C)) ELSE many(C)>>
        fuzzy(C) == IF Cardinality(C) = 1 THEN want(C)[1] = "exc"
                    ELSE (\E i \in C : e.each[i][1] # "fld") \/ many(C) = <<>>
        cs == Choices(P, e.sel)
    IN  IF cs = {} THEN ChkT("nowhere", e.got[1] = "exc")
        ELSE IF \E C \in cs : fuzzy(C) \/ want(C) = e.got THEN <<>>
        ELSE << <<"slice", [patches |-> Musts(P, e.sel), may |-> Mays(P, e.sel)]>> >>
(* ---- arithmetic, patch by patch *)
BinOp(name, x, y) == CASE name \in {"add", "iadd", "uadd"} -> x + y [] name \in {"sub", "isub", "usub"} -> x - y
                     [] name \in {"mul", "imul", "umul"} -> x * y [] name = "max" -> Max2(x, y)
                     [] name = "floordiv" -> x \div y [] name = "mod" -> x % y
                     [] name = "lt" -> IF x < y THEN 1 ELSE 0 [] name = "le" -> IF x <= y THEN 1 ELSE 0
                     [] name = "gt" -> IF x > y THEN 1 ELSE 0 [] name = "ge" -> IF x >= y THEN 1 ELSE 0
                     [] name = "eq" -> IF x = y THEN 1 ELSE 0 [] name = "ne" -> IF x # y THEN 1 ELSE 0
                     [] name = "pow" -> x ^ y
UnOp(name, x) == CASE name = "neg" -> -x [] name = "pos" -> x [] name = "abs" -> IF x < 0 THEN -x ELSE x
                 [] name = "square" -> x * x
ValOf(O, i) == IF O[1] = "num" THEN <<>> ELSE O[2][IF Len(O[2]) = 1 THEN 1 ELSE i].v
JArith(e) ==
    LET n == IF e.x[1] = "num" THEN Len(e.y[2]) ELSE Len(e.x[2])
        el(O, i, k) == IF O[1] = "num" THEN O[2] ELSE LET q == O[2][IF Len(O[2]) = 1 THEN 1 ELSE i].v IN q[k]
        sz(i) == IF e.x[1] = "num" THEN Len(e.y[2][i].v) ELSE Len(e.x[2][i].v)
        want == [i \in 1..n |-> [k \in 1..sz(i) |-> IF e.un THEN UnOp(e.f, el(e.x, i, k)) ELSE BinOp(e.f, el(e.x, i, k), el(e.y, i, k))]]
        base == IF e.x[1] = "num" THEN e.y[2] ELSE e.x[2]
    IN  IF e.got[1] # "amr" THEN << <<"runs", TRUE>> >>
        ELSE Chk("patches", Len(e.got[2]), n)
             \o (IF Len(e.got[2]) # n THEN <<>>
                 ELSE Chk("values", [i \in 1..n |-> e.got[2][i].v], want)
                      \o ChkT("coordinates", \A i \in 1..n : e.got[2][i].ax = base[i].ax /\ e.got[2][i].nc = base[i].nc))
(* ---- reductions over everything *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
SumSq(q) == SumSeq([i \in 1..Len(q) |-> q[i] * q[i]])
Near1(g, num, den) == LET d == g * den - SS * num IN -den <= d /\ d <= den
JReduce(e) ==
    LET a == Cat([i \in 1..Len(e.x) |-> e.x[i].v])
        n == Len(a)
        g == e.got[2]
        ok == CASE e.f = "max" -> g = SS * MaxOf(a)
                [] e.f = "min" -> g = SS * MinOf(a)
                [] e.f = "sum" -> g = SS * SumSeq(a)
                [] e.f = "ptp" -> g = SS * (MaxOf(a) - MinOf(a))
                [] e.f = "mean" -> Near1(g, SumSeq(a), n)
                [] e.f = "std" -> Near1(g, n * SumSq(a) - SumSeq(a) * SumSeq(a), n * n)  \* the square of what was given
                [] e.f = "any" -> (g # 0) = (\E i \in 1..n : a[i] # 0)
                [] e.f = "all" -> (g # 0) = (\A i \in 1..n : a[i] # 0)
                [] e.f = "prod" -> g = SS * MulSeq(a)
    IN  IF e.got[1] # "num" THEN << <<"runs", TRUE>> >> ELSE IF ok THEN <<>> ELSE << <<"reduction", a>> >>
(* ---- patch by patch, whatever it is *)
JEach(e) == Chk("each", e.got, <<"amr", e.each>>)
(* ---- between the places *)
Close(A, c, t, g) == LET n == Numer(A, c, t)
                         d == Denom(A, t)
                         x == g * d - SS * n
                     IN  x <= d /\ -x <= d
Fits(A, kind, t, q) == IF kind = "linear" THEN \A c \in 1..C1(A) : Close(A, c, t, q[c])
                       ELSE q \in {[c \in 1..C1(A) |-> SS * x[c]] : x \in ValuesNear(A, t)}
JInterp(e) ==
    LET m == C1(e.b[1])
        bad == {k \in 1..Len(e.pts) : LET H == Holders(e.b, e.pts[k])
                                      IN  H # {} /\ ~\E i \in H : Fits(e.b[i], e.kind, e.pts[k], SubSeq(e.got[2], (k - 1) * m + 1, k * m))}
    IN  IF e.got[1] # "ok" THEN << <<"runs", TRUE>> >>
        ELSE IF Len(e.got[2]) # Len(e.pts) * m THEN << <<"size", Len(e.pts)>> >>
        ELSE IF bad = {} THEN <<>> ELSE << <<"value", [point |-> {e.pts[k] : k \in bad}]>> >>
(* ---- lines: each step follows a patch that holds the place it starts from.
        The line runs against the field up to its seed, then along it; positions and steps in units of points *)
Out(P, z) == \E k \in 1..Len(z) : z[k] < U * GlobalLo(P)[k] \/ z[k] > U * GlobalHi(P)[k]
JStream(e) ==
    LET P == e.b
        L == e.got[2]
        n == Len(L)
        (* there is no way to go along an axis of one place *)
        flat(k) == \A i \in 1..Len(P) : P[i].n[k] = 1
        dir(i) == [k \in 1..3 |-> IF flat(k) THEN 0 ELSE e.dir[i][k]]
        step(a, z, d) == \E i \in Holders(P, a) : z = [k \in 1..3 |-> a[k] + d * e.ds * dir(i)[k]]
        still(a) == \E i \in Holders(P, a) : dir(i) = <<0, 0, 0>>
        seeds == {k \in 1..n : L[k] = e.seed}
        okBack(m) == \A k \in 1..(m - 1) : step(L[k + 1], L[k], -1)
        okFwd(m) == \A k \in m..(n - 1) : step(L[k], L[k + 1], 1)
        end(k, cnt) == Out(P, L[k]) \/ still(L[k]) \/ cnt = e.maxit
        fits(m) == /\ IF e.dirs \in {2, 3} THEN okBack(m) /\ end(1, m - 1) ELSE m = 1
                   /\ IF e.dirs \in {1, 3} THEN okFwd(m) /\ end(n, n - m) ELSE m = n
    IN  IF e.got[1] # "ok" THEN << <<"runs", TRUE>> >>
        ELSE IF \E m \in seeds : fits(m) THEN <<>> ELSE << <<"line", [seeds |-> seeds]>> >>
Judge(init, e) ==
    ChkT("pure", e.pure)
    \o CASE e.op = "skel" -> JSkel(e) [] e.op = "slice" -> JSlice(e) [] e.op = "arith" -> JArith(e)
         [] e.op = "reduce" -> JReduce(e) [] e.op = "each" -> JEach(e) [] e.op = "interp" -> JInterp(e)
         [] e.op = "stream" -> JStream(e)
         [] e.op = "plain" -> Chk("plain", e.got, e.want)
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

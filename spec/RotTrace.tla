---------------------------- MODULE RotTrace ----------------------------
EXTENDS Rot, TraceBase
T == 12
Neg(a) == [i \in 1..3 |-> -a[i]]
(* the matrix a representation stands for; a dcm turns the axes, not the vectors *)
Stands(k, sense, ax, x) ==
    CASE k = "elem" -> Elem(ax[1], IF sense = "dcm" THEN -x ELSE x)
      [] k = "angle" -> OfAngles(ax, IF sense = "dcm" THEN Neg(x) ELSE x)
      [] k = "eul" -> OfEul(ax, IF sense = "dcm" THEN Neg(x) ELSE x)
      [] k = "axis" -> OfAxis(x[1], x[2], x[3])
      [] k = "quat" -> IF sense = "dcm" THEN Tr(OfQuat(x)) ELSE OfQuat(x)
(* the matrix that a representation given back stands for *)
Back(k, sense, ax, x) ==
    CASE k = "angle" -> OfAngles(ax, IF sense = "dcm" THEN Neg(x) ELSE x)
      [] k = "eul" -> OfEul(ax, IF sense = "dcm" THEN Neg(x) ELSE x)
      [] k = "axis" -> OfUnit(x[1], x[2])
      [] k = "quat" -> IF sense = "dcm" THEN Tr(OfUQuat(x)) ELSE OfUQuat(x)
IsUnit(u) == Abs(RDiv(Dot(u, u), S) - S) <= 4
Proper(k, ax, x, strict) ==
    CASE k \in {"angle", "eul"} -> IF ax[1] = ax[3] THEN x[2] >= -2 /\ x[2] <= 180002 ELSE x[2] >= -90002 /\ x[2] <= 90002
      [] k = "axis" -> IsUnit(x[1]) /\ (~strict \/ (x[2] >= -2 /\ x[2] <= 180002))
      [] k = "quat" -> Abs(RDiv(Norm2(x), S) - S) <= 8
At(v, k) == IF Len(v) = 1 THEN v[1] ELSE v[k]
Max(P) == CHOOSE x \in P : \A y \in P : y <= x
Long(args) == Max({1} \cup {Len(args[i]) : i \in 1..Len(args)})
RECURSIVE Each(_, _, _, _)
(* the first k where ok[k] fails *)
Each(clause, ok, show, k) == IF k > Len(ok) THEN <<>> ELSE IF ok[k] THEN Each(clause, ok, show, k + 1)
                             ELSE << <<clause, show[k]>> >>
Mats(got, want, tol) == IF Len(got) # Len(want) THEN << <<"number", Len(want)>> >>
    ELSE Each("matrix", [k \in 1..Len(want) |-> CloseM(got[k], want[k], tol)], [k \in 1..Len(want) |-> [got |-> got[k], want |-> want[k]]], 1)
Takes(e, g, k) ==
    LET a == At(e.from, k)  b == At(e.to, k)  ua == Unit(a[1], a[2])  ub == Unit(b[1], b[2])
        roll == At(e.roll, k)
    IN  /\ IsRot(g, T) /\ CloseV(Scaled(Act(g, ua)), ub, T)
        /\ IF e.newx # <<>> THEN
              LET x == e.newx[1]  gx == Scaled(Act(g, <<S, 0, 0>>))  n == Cross(b[1], x)
              IN  Cross(b[1], x) # <<0, 0, 0>> => (Dot(gx, x) > 0 /\ Abs(RDiv(Dot(gx, n), Abs(n[1]) + Abs(n[2]) + Abs(n[3]))) <= T)
           ELSE IF Opposed(a[1], a[2], b[1], b[2]) THEN Abs(g[1][1] + g[2][2] + g[3][3] + S) <= T
           ELSE CloseM(g, Mul(OfAxis(b[1], b[2], roll), Taking(a[1], a[2], b[1], b[2])), T)
Between(e, g, k) ==
    LET a == At(e.from, k)  b == At(e.to, k)  mn == a[2] * b[2]  d == Dot(a[1], b[1])
    IN  /\ g >= 0 /\ g <= 180000
        /\ Abs(Cos(g) * mn - S * d) <= 3 * mn
        /\ (d = mn => g <= 2) /\ (d = -mn => g >= 179998)
Judge(init, e) ==
    LET R == IF e.op = "ortho" THEN Chk("refused", e.got[1] = "exc", e.bad)
             ELSE IF e.got[1] = "exc" THEN << <<"runs", TRUE>> >>
             ELSE LET g == e.got[2]  single == Chk("single", e.got[3], e.single) IN
             CASE e.op = "mat" -> single \o Mats(g, [k \in 1..Len(e.items) |-> Stands(e.k, e.sense, e.ax, e.items[k])], T)
               [] e.op = "cross" ->  (* one written as another *)
                    IF Len(g) # Len(e.items) THEN << <<"number", Len(e.items)>> >> ELSE single
                    \o Each("proper", [k \in 1..Len(g) |-> Proper(e.to, <<1, 2, 3>>, g[k], FALSE)], g, 1)
                    \o Each("same", [k \in 1..Len(g) |-> CloseM(Back(e.to, "rot", <<>>, g[k]), Stands(e.k, "rot", <<>>, e.items[k]), T)], g, 1)
               [] e.op = "inv" ->
                    IF Len(g) # Len(e.mats) THEN << <<"number", Len(e.mats)>> >> ELSE single
                    \o Each("proper", [k \in 1..Len(g) |-> Proper(e.to, e.ax, g[k], TRUE)], g, 1)
                    \o Each("same", [k \in 1..Len(g) |-> CloseM(Back(e.to, e.sense, e.ax, g[k]), e.mats[k], T)], g, 1)
               [] e.op = "rotmul" -> single \o Mats(g, [k \in 1..Long(e.args) |-> MulAll([i \in 1..Len(e.args) |-> OfQuat(At(e.args[i], k))], 1)], T + 8)
               [] e.op = "rotate" ->
                    LET n == Long(e.args \o <<e.vec>>)
                    IN  IF Len(g) # n THEN << <<"number", n>> >> ELSE single
                        \o Each("vector", [k \in 1..n |-> CloseV(g[k], Act(MulAll([i \in 1..Len(e.args) |-> OfQuat(At(e.args[i], k))], 1), At(e.vec, k)), 120)], g, 1)
               [] e.op = "qmul" ->
                    LET n == Long(e.args)
                        want == [k \in 1..n |-> LET p == QMulAll([i \in 1..Len(e.args) |-> At(e.args[i], k)], 1) IN [i \in 1..4 |-> 1000 * p[i]]]
                    IN  single \o Chk("product", g, want)
               [] e.op = "between" ->
                    LET n == Long(<<e.from, e.to>>)
                    IN  IF Len(g) # n THEN << <<"number", n>> >> ELSE single \o Each("angle", [k \in 1..n |-> Between(e, g[k], k)], g, 1)
               [] e.op = "take" ->
                    LET n == Long(<<e.from, e.to, e.roll>>)
                    IN  IF Len(g) # n THEN << <<"number", n>> >> ELSE single \o Each("takes", [k \in 1..n |-> Takes(e, g[k], k)], g, 1)
               [] e.op = "conv" -> Each("converted", [k \in 1..Len(g) |->
                     CASE e.dir = "d2r" -> Abs(g[k] - RDiv(e.vals[k] * 31416, 180)) <= 2
                       [] e.dir = "r2d" -> Abs(RDiv(g[k] * 3142, 1000) - e.vals[k] * 18) <= 2 + (Abs(e.vals[k]) \div 100)
                       [] OTHER -> g[k] = e.vals[k]], g, 1)
    IN  ChkT("inputs", e.pure) \o R
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE SeedsTrace ----------------------------
EXTENDS Seeds, TraceBase
T == 5
RECURSIVE Each(_, _, _, _)
Each(clause, ok, show, k) == IF k > Len(ok) THEN <<>> ELSE IF ok[k] THEN Each(clause, ok, show, k + 1)
                             ELSE << <<clause, show[k]>> >>
SameSeq(clause, got, want, close(_, _)) ==
    IF Len(got) # Len(want) THEN << <<clause, Len(want)>> >>
    ELSE Each(clause, [k \in 1..Len(want) |-> close(got[k], want[k])], [k \in 1..Len(want) |-> [at |-> k, want |-> want[k]]], 1)
Near(a, b) == CloseV(a, b, T)
NearN(a, b) == Abs(a - b) <= T
SamePts(clause, got, want) == SameSeq(clause, got, want, Near)
RECURSIVE Conc(_, _)
Conc(q, k) == IF k > Len(q) THEN <<>> ELSE q[k] \o Conc(q, k + 1)
MeshIs(clause, got, want, close(_, _)) ==
    IF Len(got) # Len(want) \/ (\E i \in 1..Len(got) : Len(got[i]) # Len(want[i])) THEN << <<clause, <<Len(want), Len(want[1])>> >> >>
    ELSE SameSeq(clause, Conc(got, 1), Conc(want, 1), close)
Judge(init, e) ==
    LET c == e.c
        R == IF e.got[1] = "exc" THEN << <<"runs", TRUE>> >>
             ELSE LET g == e.got[2] IN
             CASE e.op = "pts" ->
                    Chk("number", g.n, Size(c))
                    \o SamePts("points", g.pts, Seeds(c))
                    \o (IF g.iter # g.pts THEN << <<"iterated", g.pts>> >> ELSE <<>>)
                    \o Chk("again", g.again, TRUE)
               [] e.op = "mesh" -> MeshIs("mesh", g.verts, PtMesh(c, e.fill), Near)
                                   \o (IF e.vals = <<>> THEN <<>> ELSE MeshIs("mesh values", g.arr, ArrMesh(c, e.vals, e.fill), NearN))
               [] e.op = "wrap" ->
                    LET a == LocalAxes(c)
                    IN  Chk("axes", [i \in 1..Len(g.ax) |-> g.ax[i][1]], [i \in 1..Len(a) |-> a[i][1]])
                        \o (IF Len(g.ax) # Len(a) THEN <<>> ELSE Conc([i \in 1..Len(a) |-> SameSeq("coordinates", g.ax[i][2], a[i][2], NearN)], 1))
                        \o (IF e.vals = <<>> THEN <<>> ELSE Chk("values", g.vals, e.vals))
               [] e.op = "uvaxes" ->
                    LET a == LocalAxes(c)  w == UVShape(c)
                        two == IF c.k = "volume" THEN SelectSeq([i \in 1..3 |-> <<i, a[i][2]>>], LAMBDA p : p[1] # Flat(c))
                               ELSE [i \in 1..2 |-> <<i, a[i][2]>>]
                    IN  Chk("uv shape", g.shape, w) \o SameSeq("u", g.u, two[1][2], NearN) \o SameSeq("v", g.v, two[2][2], NearN)
               [] e.op = "uv" -> LET F == Frame(c) IN SamePts("placed", g, [k \in 1..Len(e.at) |-> OfUV(c, F, e.at[k])])
               [] e.op = "local" -> SamePts("local", g, [k \in 1..Len(e.at) |-> FromFrame(c, e.at[k])])
    IN  ChkT("inputs", e.pure) \o R
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE CrdsTrace -----------------------------
(* one event = one question to a coordinates object.  ax: sequence of [name, nc, cc (<<>>: midpoints), refl] *)
EXTENDS TraceBase, Crds
ACount(e) == Len(e.ax)
AllAt(e, center) == [i \in 1..ACount(e) |-> At(e.ax[i], center, i, 1)]
First(x) == x[1]
Last(x) == x[Len(x)]
NamesOf(e) == [i \in 1..ACount(e) |-> e.ax[i].name]
In(x, q) == \E i \in 1..Len(q) : q[i] = x
InsertAt(q, k, x) == SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))
(* missing spatial axes take their place among x, y, z; axes of other names are followed by fillers *)
Fill3(e, lo, hi) ==
    LET nm == NamesOf(e)
        pair(n) == [name |-> n, nc |-> IF lo = hi THEN <<lo>> ELSE <<lo, hi>>]
        own == [i \in 1..ACount(e) |-> [name |-> nm[i], nc |-> Nodes(e.ax[i])]]
        RECURSIVE Go(_, _)
        Go(q, k) == IF Len(q) >= 3 \/ k > 3 THEN q
                    ELSE IF In(<<"x", "y", "z">>[k], nm) THEN Go(q, k + 1)
                    ELSE Go(InsertAt(q, k, pair(<<"x", "y", "z">>[k])), k + 1)
    IN  IF In("x", nm) \/ In("y", nm) \/ In("z", nm) THEN Go(own, 1)
        ELSE own \o [i \in 1..(3 - ACount(e)) |-> pair(<<"fill_a", "fill_b", "fill_c">>[i])]

Judge(init, e) ==
    LET A == AllAt(e, IF "center" \in DOMAIN e THEN e.center ELSE "node")
        R == e.got
        Ok(clause, exp) == Chk(clause, R, <<"ok", exp>>)
    IN
    CASE e.op = "arr" ->
            LET x == At(e.ax[e.i], e.center, e.i, e.j)
            IN  IF e.shaped THEN Ok("coordinates", [shape |-> [d \in 1..ACount(e) |-> IF d = e.i THEN Len(x) ELSE 1], v |-> x])
                ELSE Ok("coordinates", [shape |-> <<Len(x)>>, v |-> x])
      [] e.op = "refused" -> ChkT("unknown-axis", R[1] = "exc")
      [] e.op = "shape" -> Ok("shape", [d \in 1..ACount(e) |-> Len(A[d])])
      [] e.op = "size" -> Ok("size", Prod([d \in 1..ACount(e) |-> Len(A[d])]))
      [] e.op = "xl" -> Ok("lower-end", [d \in 1..ACount(e) |-> First(A[d])])
      [] e.op = "xh" -> Ok("upper-end", [d \in 1..ACount(e) |-> Last(A[d])])
      [] e.op = "L" -> Ok("length", [d \in 1..ACount(e) |-> Last(A[d]) - First(A[d])])
      [] e.op = "mindx" -> Ok("smallest-step", [d \in 1..ACount(e) |-> MinStep(A[d])])
      [] e.op = "dx" -> Ok("steps", [d \in 1..ACount(e) |-> Steps(A[d])])
      [] e.op = "points" -> Ok("points", Points(A))
      [] e.op = "clist" -> Ok("coordinate-list", [d \in 1..ACount(e) |-> [name |-> e.ax[d].name, nc |-> A[d]]])
      [] e.op = "nc2cc" -> Ok("cells-around-nodes", [d \in 1..ACount(e) |-> Around(Nodes(e.ax[d]), AxCells(e.ax[d]), e.dflt)])
      [] e.op = "at3d" -> Ok("three-axes", IF ACount(e) >= 3 THEN [d \in 1..ACount(e) |-> [name |-> e.ax[d].name, nc |-> Nodes(e.ax[d])]]
                                       ELSE IF e.cell THEN Fill3(e, e.lo, e.hi) ELSE Fill3(e, Mid(e.lo, e.hi), Mid(e.lo, e.hi)))
      [] e.op = "kind" -> Ok("uniform-iff-evenly-spaced", \A d \in 1..ACount(e) : Even(e.ax[d].nc))
      [] e.op = "names" -> Ok("axis-names", NamesOf(e))
      [] e.op = "ind" -> Ok("axis-index", e.i - 1)
      [] e.op = "culled" -> Ok("axes-with-extent", SelectSeq(NamesOf(e), LAMBDA n : \E d \in 1..ACount(e) : e.ax[d].name = n /\ Len(e.ax[d].nc) > e.ignore))
      [] e.op = "units" -> Ok("units", [d \in 1..ACount(e) |-> IF d <= Len(e.units) THEN e.units[d] ELSE ""])
      [] e.op = "extend" -> Ok("extended", ExtendFrac(e.x, IF e.w = <<>> THEN e.x ELSE e.w, e.lo, e.hi, e.num, e.den, e.dflt))
      [] e.op = "extent" -> Ok("extent-of-a-selection", e.exp)
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

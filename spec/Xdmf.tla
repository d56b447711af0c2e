------------------------------- MODULE Xdmf -------------------------------
(* What an XDMF description says.  A description is a tree of grids: collections (over time or over space) of
   grids, and uniform grids carrying attributes (fields).  A grid that does not say its time, topology or geometry
   has that of the grid around it.
     grid = [gt, name, t, topo, geo, info, attrs, kids]
       gt    "Uniform" | "Spatial" | "Temporal" | anything else: kinds that are skipped
       t     <<>> or << [k |-> "single"|"list"|"slab", v |-> numbers] >>        (times are counted in quarters)
       topo  <<>> or << [ty, d] >>      d: number of nodes along z, y, x
       geo   <<>> or << [k, v] >>       k "each": v = nodes along x, y, z;  "origin": v = <<origin, step>> along z, y, x;
                                        "sphere": d = (thetas, phis), the whole sphere in degrees
       info  << <<key, value>>, ... >>
       attrs << [n, center, nc, dt, data, info], ... >>   data as in the file: z slowest, components last
   A member of a series that has no time at all has time 0.
   Read gives the tree that a reader has to show. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NONE == 999999
NoInfo == <<"none">>

(* --------------------------------------------------------------- numbers *)
Prod3(d) == d[1] * d[2] * d[3]
(* file order (z, y, x, component) to (x, y, z, component) *)
FromFile(d, nc, data) ==
    LET c == IF nc = 0 THEN 1 ELSE nc
        nz == d[1]  ny == d[2]  nx == d[3]
    IN  [i \in 1..(Prod3(d) * c) |->
            LET j == i - 1
                cc == j % c
                iz == (j \div c) % nz
                iy == (j \div (c * nz)) % ny
                ix == j \div (c * nz * ny)
            IN  data[((iz * ny + iy) * nx + ix) * c + cc + 1]]
ToFile(d, nc, data) ==
    LET c == IF nc = 0 THEN 1 ELSE nc
        nz == d[1]  ny == d[2]  nx == d[3]
    IN  [i \in 1..(Prod3(d) * c) |->
            LET j == i - 1
                cc == j % c
                ix == (j \div c) % nx
                iy == (j \div (c * nx)) % ny
                iz == j \div (c * nx * ny)
            IN  data[((ix * ny + iy) * nz + iz) * c + cc + 1]]
FromFile2(d, data) ==       \* two axes: (theta, phi) in the file, (phi, theta) in memory
    [i \in 1..(d[1] * d[2]) |-> LET j == i - 1 IN data[(j % d[1]) * d[2] + (j \div d[1]) + 1]]

Evenly(a, h, n) == [i \in 1..n |-> a + (i - 1) * h]
(* the nodes along each axis, positions counted in halves *)
Axes(topo, geo) ==
    IF geo.k = "sphere" THEN << <<"phi[deg]", Evenly(0, 720 \div (topo.d[2] - 1), topo.d[2])>>,
                                <<"theta[deg]", Evenly(0, 360 \div (topo.d[1] - 1), topo.d[1])>> >>
    ELSE LET nm == <<"x", "y", "z">>
         IN  [i \in 1..3 |-> << nm[i],
                 IF geo.k = "each" THEN geo.v[i]
                 ELSE Evenly(geo.v[1][4 - i], geo.v[2][4 - i], topo.d[4 - i]) >>]
Mids(p) == [i \in 1..(Len(p) - 1) |-> (p[i] + p[i + 1]) \div 2]
At(ax, center) == [i \in 1..Len(ax) |-> [n |-> ax[i][1], p |-> IF center = "cell" THEN Mids(ax[i][2]) ELSE ax[i][2]]]
Field(topo, geo, a) ==
    LET less == IF a.center = "cell" THEN 1 ELSE 0
        d == [i \in 1..Len(topo.d) |-> topo.d[i] - less]
    IN  [n |-> a.n, center |-> a.center, nc |-> a.nc, dt |-> a.dt, ax |-> At(Axes(topo, geo), a.center),
         v |-> IF Len(d) = 2 THEN FromFile2(d, a.data) ELSE FromFile(d, a.nc, a.data)]

(* --------------------------------------------------------------- the tree *)
Single(g) == IF g.t # <<>> /\ g.t[1].k = "single" THEN g.t[1].v[1] ELSE NONE
(* the times a collection gives its members, by position *)
Given(g, i) ==
    IF g.gt # "Temporal" \/ g.t = <<>> THEN NONE
    ELSE LET w == g.t[1]
         IN  IF w.k = "list" THEN (IF i <= Len(w.v) THEN w.v[i] ELSE NONE)
             ELSE IF w.k = "slab" THEN (IF i <= w.v[3] THEN w.v[1] + (i - 1) * w.v[2] ELSE NONE)
             ELSE NONE
Or(a, b) == IF a # NONE THEN a ELSE b
OrS(a, b) == IF a # <<>> THEN a ELSE b
(* later of the same key wins *)
Own(info, key) == LET S == {i \in 1..Len(info) : info[i][1] = key} IN
                  IF S = {} THEN NoInfo ELSE info[CHOOSE i \in S : \A j \in S : j <= i][2]
Merge(own, around, keys) == [i \in 1..Len(keys) |-> LET o == Own(own, keys[i]) IN IF o # NoInfo THEN o ELSE around[i]]

TimeOf(x) == IF x.t = NONE THEN 0 ELSE x.t
InTime(q) == LET less(a, b) == TimeOf(a) < TimeOf(b)
                 RECURSIVE Ins(_, _)
                 Ins(sorted, rest) ==
                    IF rest = <<>> THEN sorted
                    ELSE LET x == Head(rest)
                             k == Cardinality({i \in 1..Len(sorted) : ~less(x, sorted[i])})
                         IN  Ins(SubSeq(sorted, 1, k) \o <<x>> \o SubSeq(sorted, k + 1, Len(sorted)), Tail(rest))
             IN  Ins(<<>>, q)

Nowhere == [t |-> NONE, topo |-> <<>>, geo |-> <<>>, info |-> <<>>]
RECURSIVE Show(_, _, _)
(* in: what surrounds the grid.  <<>> if nothing is shown, else <<node>> *)
Show(g, in, keys) ==
    LET t == Or(Single(g), in.t)
        topo == OrS(g.topo, in.topo)
        geo == OrS(g.geo, in.geo)
        info == Merge(g.info, in.info, keys)
    IN  IF g.gt = "Uniform" THEN
            IF topo = <<>> \/ geo = <<>> THEN <<>>
            ELSE << [k |-> "grid", name |-> g.name, t |-> t, info |-> info,
                     ax |-> At(Axes(topo[1], geo[1]), "node"),
                     flds |-> [i \in 1..Len(g.attrs) |->
                                  Field(topo[1], geo[1], g.attrs[i]) @@ [t |-> t, info |-> Merge(g.attrs[i].info, info, keys)]]] >>
        ELSE IF g.gt \in {"Spatial", "Temporal"} THEN
            LET each == [i \in 1..Len(g.kids) |->
                            Show(g.kids[i], [t |-> Or(Or(Given(g, i), t), IF g.gt = "Temporal" THEN 0 ELSE NONE), topo |-> topo, geo |-> geo, info |-> info], keys)]
                all == FlattenSeq(each)
                kids == IF g.gt = "Temporal" THEN InTime(all) ELSE all
            IN  IF g.gt = "Spatial" /\ Len(kids) > 1 /\ \A i \in 1..Len(kids) : kids[i].k = "grid"
                THEN << [k |-> "patches", t |-> kids[1].t, info |-> kids[1].info, kids |-> kids] >>
                ELSE << [k |-> IF g.gt = "Temporal" THEN "series" ELSE "set", name |-> g.name, t |-> t, info |-> info,
                         kids |-> kids] >>
        ELSE <<>>

NoKeys(keys) == [i \in 1..Len(keys) |-> NoInfo]
Read(doc, keys) == FlattenSeq([i \in 1..Len(doc) |-> Show(doc[i], [Nowhere EXCEPT !.info = NoKeys(keys)], keys)])
=============================================================================

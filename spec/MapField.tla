----------------------------- MODULE MapField -----------------------------
(* Fields and points on a sphere, in (phi, theta) or (lon, lat).
   A field is [axes, crd, unit, dim, comps, cell, dat]: names of the axes, their nodes in thousandths of a
   degree (or the plain numbers of an axis that is no angle), the unit each is written in, the number of values
   along each, and the values, last axis fastest, components innermost.  cell: values lie between nodes. *)
EXTENDS Rot
Refused == [axes |-> <<"refused">>]
Turned(ax) == CASE ax = "phi" -> "lon" [] ax = "lon" -> "phi" [] ax = "theta" -> "lat" [] ax = "lat" -> "theta" [] OTHER -> ax
Sphere == {"phi", "theta"}
Map == {"lon", "lat"}
Range(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Where(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
RECURSIVE Off(_, _, _)
(* place of index ix (from 1) of an array of dims d in the flat sequence, from 0 *)
Off(d, ix, i) == IF i > Len(d) THEN 0 ELSE (ix[i] - 1) * Prod(d, i + 1) + Off(d, ix, i + 1)
At(f, ix, c) == f.dat[Off(f.dim, ix, 1) * f.comps + c]
(* the index of the k-th place (from 0) *)
Ix(d, k) == [i \in 1..Len(d) |-> 1 + ((k \div Prod(d, i + 1)) % d[i])]
(* values of an array of dims d where index ix, component c holds V(ix, c) *)
Fill(d, comps, V(_, _)) == [m \in 1..(Prod(d, 1) * comps) |-> V(Ix(d, (m - 1) \div comps), 1 + ((m - 1) % comps))]
-----------------------------------------------------------------------------
InRange(q, lo, hi) == \A i \in 1..Len(q) : q[i] >= lo /\ q[i] <= hi
(* latitude and colatitude run in opposite directions *)
Convert(f, to, order, units) ==
    LET src == [i \in 1..Len(order) |-> IF order[i] \in Range(f.axes) THEN order[i] ELSE Turned(order[i])]
    IN  IF ~(to \subseteq Range(order)) \/ Range(src) # Range(f.axes) \/ Len(order) # Len(f.axes) THEN Refused
        ELSE LET p == [i \in 1..Len(order) |-> Where(f.axes, src[i])]
                 flip == [i \in 1..Len(order) |-> src[i] # order[i] /\ order[i] \in {"lat", "theta"}]
                 bad == \E i \in 1..Len(order) :
                          \/ flip[i] /\ order[i] = "lat" /\ ~InRange(f.crd[p[i]], 0, 180000)
                          \/ flip[i] /\ order[i] = "theta" /\ ~InRange(f.crd[p[i]], -90000, 90000)
                          \/ units[i] # "" /\ f.unit[p[i]] # units[i] /\ (f.unit[p[i]] = "" \/ {f.unit[p[i]], units[i]} # {"deg", "rad"})
             IN  IF bad THEN Refused
                 ELSE LET d == [i \in 1..Len(order) |-> f.dim[p[i]]]
                          Back(ix) == [j \in 1..Len(order) |-> LET i == CHOOSE i \in 1..Len(order) : p[i] = j
                                                               IN IF flip[i] THEN d[i] + 1 - ix[i] ELSE ix[i]]
                      IN  [axes |-> order,
                           crd |-> [i \in 1..Len(order) |-> LET q == f.crd[p[i]] IN IF flip[i] THEN Rev([k \in 1..Len(q) |-> 90000 - q[k]]) ELSE q],
                           unit |-> [i \in 1..Len(order) |-> IF units[i] = "" THEN f.unit[p[i]] ELSE units[i]],
                           dim |-> d, comps |-> f.comps, cell |-> f.cell,
                           dat |-> Fill(d, f.comps, LAMBDA ix, c : At(f, Back(ix), c))]
-----------------------------------------------------------------------------
(* what a plot around a pole shows: longitude, and distance from the pole, out to b *)
Mid(f, i) == LET q == f.crd[i] IN IF f.cell THEN [k \in 1..(Len(q) - 1) |-> (q[k] + q[k + 1]) \div 2] ELSE q
Widest(f) == LET q == f.crd[2] IN Abs(q[Len(q)] - q[1])
Polar(f, b, north, again) ==
    LET m == Convert(f, Map, <<"lon", "lat">>, <<"rad", "rad">>)
    IN  IF m = Refused THEN Refused
        ELSE LET far == IF b # <<>> THEN Abs(b[1]) ELSE IF Widest(m) >= 90900 THEN 40000 ELSE 90000
                 q == Mid(m, 2)
                 Colat(k) == IF north THEN 90000 - q[k] ELSE 90000 + q[k]
                 keep == {k \in 1..Len(q) : Colat(k) <= far}
             IN  IF keep = {} THEN Refused
                 ELSE LET lo == CHOOSE k \in keep : \A j \in keep : k <= j
                          hi == CHOOSE k \in keep : \A j \in keep : k >= j
                          n == hi - lo + 1
                          nodes == SubSeq(m.crd[2], lo, IF m.cell THEN hi + 1 ELSE hi)
                          col == [k \in 1..Len(nodes) |-> IF north THEN 90000 - nodes[k] ELSE 90000 + nodes[k]]
                          lon == m.crd[1]
                          more == again /\ lon[Len(lon)] - lon[1] < 359999
                          d == <<m.dim[1] + (IF more THEN 1 ELSE 0), n>>
                      IN  [axes |-> <<"lon", "lat">>,
                           crd |-> <<IF more THEN Append(lon, lon[1] + 360000) ELSE lon, IF north THEN Rev(col) ELSE col>>,
                           unit |-> <<"rad", "rad">>, dim |-> d, comps |-> m.comps, cell |-> m.cell,
                           dat |-> Fill(d, m.comps, LAMBDA ix, c : At(m, <<IF ix[1] > m.dim[1] THEN 1 ELSE ix[1],
                                                                          IF north THEN hi + 1 - ix[2] ELSE lo - 1 + ix[2]>>, c))]
-----------------------------------------------------------------------------
(* points: r in units of 1/S, angles in thousandths of a degree *)
OfSphere(r, th, ph) == <<RDiv(RDiv(r * Sin(th), S) * Cos(ph), S), RDiv(RDiv(r * Sin(th), S) * Sin(ph), S), RDiv(r * Cos(th), S)>>
(* longitude is measured from the side away from the sun *)
OfLatLon(r, lat, lon) == OfSphere(r, 90000 - lat, lon + 180000)
=============================================================================

------------------------------ MODULE XdmfMC ------------------------------
(* Every small description: a collection of up to two members (one of them a collection itself), with times, topology and
   geometry said at any level, and the laws of reading it. *)
EXTENDS Xdmf
CONSTANT Kind
VARIABLES doc, ready
Keys == <<"k">>
D == <<1, 2, 2>>
Topo == << [ty |-> "3DRectMesh", d |-> D] >>
GeoA == << [k |-> "each", v |-> << <<0, 2>>, <<4, 8>>, <<6>> >>] >>
GeoB == << [k |-> "origin", v |-> << <<1, 1, 1>>, <<2, 4, 6>> >>] >>
At1(x) == << [n |-> "p", center |-> "node", nc |-> 0, dt |-> "float32", data |-> <<x, 2, 3, 4>>, info |-> <<>>] >>
Uni(t, topo, geo, info, x) == [gt |-> "Uniform", name |-> "u", t |-> t, topo |-> topo, geo |-> geo, info |-> info, attrs |-> At1(x), kids |-> <<>>]
T1(v) == << [k |-> "single", v |-> <<v>>] >>
Infos == { <<>>, << <<"k", <<"text", "a">> >> >>, << <<"k", <<"text", "b">> >>, <<"k", <<"text", "c">> >> >> }
Unis == {Uni(t, tg[1], tg[2], info, x) : t \in {<<>>, T1(3), T1(0)}, tg \in { <<<<>>, <<>>>>, <<Topo, GeoA>>, <<Topo, <<>>>>, <<<<>>, GeoB>> },
                                         info \in {<<>>, << <<"k", <<"text", "a">> >> >>}, x \in {1}}
Other == [gt |-> "Tree", name |-> "n", t |-> <<>>, topo |-> <<>>, geo |-> <<>>, info |-> <<>>, attrs |-> <<>>, kids |-> <<>>]
Members == Unis \cup {Other}
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
TTimes == {<<>>, T1(5), << [k |-> "list", v |-> <<7, 2>>] >>, << [k |-> "slab", v |-> <<4, -3, 2>>] >>}
Cols(kids) == {[gt |-> gt, name |-> "c", t |-> t, topo |-> tg[1], geo |-> tg[2], info |-> info, attrs |-> <<>>, kids |-> kids] :
                   gt \in {"Temporal", "Spatial"}, t \in TTimes, tg \in { <<<<>>, <<>>>>, <<Topo, GeoA>>, <<Topo, <<>>>> }, info \in Infos}
Few == {Uni(<<>>, <<>>, <<>>, <<>>, 1), Uni(T1(3), Topo, GeoA, <<>>, 2), Uni(<<>>, <<>>, GeoB, << <<"k", <<"text", "a">> >> >>, 3)}
Kids == CASE Kind = "small" -> UpTo(Members, 1) \cup {<<a, b>> : a \in Few, b \in Few \cup {Other}}
          [] Kind = "all" -> UpTo(Members, 2)
          [] OTHER -> {}
Docs == UNION {Cols(ks) : ks \in Kids}
Nested == UNION {Cols(<<q[1], q[2]>>) : q \in {<<c, u>> : c \in {x \in UNION {Cols(ks) : ks \in UpTo(Few, 1)} : x.gt = "Spatial" /\ x.t \in {<<>>, T1(5)}}, u \in Few}}

Init == doc \in (IF Kind = "nested" THEN Nested ELSE Docs) /\ ready = FALSE
Next == ready = FALSE /\ ready' = TRUE /\ UNCHANGED doc

(* the uniform grids of a description with the grids around them, outermost first, and their places in them *)
RECURSIVE Paths(_, _)
Paths(g, above) ==
    IF g.gt = "Uniform" THEN << [g |-> g, above |-> above] >>
    ELSE IF g.gt \in {"Spatial", "Temporal"} THEN FlattenSeq([i \in 1..Len(g.kids) |-> Paths(g.kids[i], Append(above, <<g, i>>))])
    ELSE <<>>
RECURSIVE Leaves(_)
Leaves(n) == IF n.k = "grid" THEN <<n>> ELSE FlattenSeq([i \in 1..Len(n.kids) |-> Leaves(n.kids[i])])
(* what a grid says, or the innermost of those around it *)
Chain(p) == <<p.g>> \o [i \in 1..Len(p.above) |-> p.above[Len(p.above) + 1 - i][1]]
Nearest(q) == LET S == {i \in 1..Len(q) : q[i] # <<>>} IN IF S = {} THEN <<>> ELSE q[CHOOSE i \in S : \A j \in S : i <= j]
TopoOf(p) == Nearest([i \in 1..Len(Chain(p)) |-> Chain(p)[i].topo])
GeoOf(p) == Nearest([i \in 1..Len(Chain(p)) |-> Chain(p)[i].geo])
(* the words about time a grid is under: its own, its place in the collection around it, that one's own, ... *)
TimeWords(p) ==
    LET m == Len(p.above)
        One(i) == LET c == p.above[m + 1 - i] IN <<Given(c[1], c[2]), Single(c[1])>>
        q == <<Single(p.g)>> \o FlattenSeq([i \in 1..m |-> One(i)])
        S == {i \in 1..Len(q) : q[i] # NONE}
    IN  IF S # {} THEN q[CHOOSE i \in S : \A j \in S : i <= j]
        ELSE IF \E i \in 1..m : p.above[i][1].gt = "Temporal" THEN 0 ELSE NONE
InfoOf(p) == LET q == [i \in 1..Len(Chain(p)) |-> Chain(p)[i].info] IN
             LET w == Nearest(q) IN IF w = <<>> THEN NoInfo ELSE w[Len(w)][2]
Shown == {i \in 1..Len(Paths(doc, <<>>)) : TopoOf(Paths(doc, <<>>)[i]) # <<>> /\ GeoOf(Paths(doc, <<>>)[i]) # <<>>}
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]

Declared ==
    LET P == Paths(doc, <<>>)
        want == SelectSeq(P, LAMBDA p : TopoOf(p) # <<>> /\ GeoOf(p) # <<>>)
        L == Leaves(Read(<<doc>>, Keys)[1])
    IN  Bag([i \in 1..Len(L) |-> <<L[i].t, L[i].ax, L[i].info[1], L[i].flds[1].v>>])
        = Bag([i \in 1..Len(want) |-> <<TimeWords(want[i]), At(Axes(TopoOf(want[i])[1], GeoOf(want[i])[1]), "node"), InfoOf(want[i]),
                                        FromFile(D, 0, want[i].g.attrs[1].data)>>])
Ordered == LET R == Read(<<doc>>, Keys)[1] IN R.k = "series" => \A i \in 1..(Len(R.kids) - 1) : TimeOf(R.kids[i]) <= TimeOf(R.kids[i + 1])
(* saying at the collection what no member says differently changes nothing *)
Plain(g) == g.gt # "Uniform" \/ (g.topo = <<>> /\ g.geo = <<>>)
Hoist == (doc.topo # <<>> /\ doc.geo # <<>> /\ \A i \in 1..Len(doc.kids) : Plain(doc.kids[i]) /\ doc.kids[i].kids = <<>>)
         => Read(<< [doc EXCEPT !.topo = <<>>, !.geo = <<>>,
                               !.kids = [i \in 1..Len(doc.kids) |-> [doc.kids[i] EXCEPT !.topo = doc.topo, !.geo = doc.geo]]] >>, Keys)
            = Read(<<doc>>, Keys)
ASSUME \A d \in [1..3 -> 1..3], nc \in {0, 2} :
          LET n == Prod3(d) * (IF nc = 0 THEN 1 ELSE nc)
              q == [i \in 1..n |-> i]
          IN  ToFile(d, nc, FromFile(d, nc, q)) = q /\ FromFile(d, nc, ToFile(d, nc, q)) = q
              /\ Cardinality({FromFile(d, nc, q)[i] : i \in 1..n}) = n
Laws == ready => Declared /\ Ordered /\ Hoist
=============================================================================

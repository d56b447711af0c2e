----------------------------- MODULE FeaturesMC -----------------------------
(* All sets of points on a small lattice: their clusters on every kind of axis, and the topologies they stand for when joined. *)
EXTENDS Features, TLC
CONSTANT N
VARIABLE pts
Cells == (0..(N - 1)) \X (0..(N - 1))
Num(c) == c[1] * N + c[2]
Init == pts = {}
Next == \E c \in Cells : (\A p \in pts : Num(p) < Num(c)) /\ pts' = pts \cup {c}
Spec == Init /\ [][Next]_pts
Pd == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
Who(g) == {q[1] : q \in g}
Partition == \A pd \in Pd, diag \in BOOLEAN :
    LET cs == Clusters(pts, <<N, N>>, pd, diag)
    IN  /\ UNION {Who(g) : g \in cs} = pts
        /\ \A g, h \in cs : g # h => Who(g) \cap Who(h) = {}
        /\ \A g, h \in cs : g # h => \A a \in Who(g), b \in Who(h) : ~Near(a, b, diag)
(* what closes or counts more neighbours makes no more clusters *)
Fewer == /\ \A diag \in BOOLEAN : Cardinality(Clusters(pts, <<N, N>>, <<TRUE, FALSE>>, diag)) <= Cardinality(Clusters(pts, <<N, N>>, <<FALSE, FALSE>>, diag))
         /\ Cardinality(Clusters(pts, <<N, N>>, <<FALSE, FALSE>>, TRUE)) <= Cardinality(Clusters(pts, <<N, N>>, <<FALSE, FALSE>>, FALSE))
Flat == \A g \in Clusters(pts, <<N, N>>, <<FALSE, FALSE>>, TRUE) : Clear(g) /\ \A q \in g : q[2] = <<0, 0>>
(* topologies: one bit for points, another elsewhere; after k rounds a cell has what its window has *)
A == [i \in 1..N |-> [j \in 1..N |-> IF <<i - 1, j - 1>> \in pts THEN 1 + (i % 2) * 8 ELSE 2 + (j % 2) * 4]]
RECURSIVE Rounds(_, _)
Rounds(a, k) == IF k = 0 THEN a ELSE Joined(Rounds(a, k - 1))
Window(i, j, k) == {A[p][q] : p \in i..(i + k), q \in j..(j + k)}
Windows == \A k \in 1..(N - 1) : LET b == Rounds(A, k)
                                 IN  \A i, j \in 1..(N - k) : \A bit \in 0..3 : (Bit(b[i][j], bit) = 1) <=> (\E v \in Window(i, j, k) : Bit(v, bit) = 1)
(* joining longer keeps what has met *)
X == [i \in 1..N |-> 64 * i * i]
Once == \A hi \in 1..(N - 1) : LET m == Meet(A, X, X, 15, 0, 1, hi) IN m.hits # {} => Meet(A, X, X, 15, 0, 1, N).hits = m.hits
(* kinds of nulls come in pairs: a mirrored field has the other kind *)
M == <<<<1, Cardinality(pts) - 2, 0>>, <<Cardinality(pts), 2, -1>>, <<0, 1, -3>>>>
Kinds == LET k == Kind(M) IN k # "O" => Kind([i \in 1..3 |-> Neg(M[i])]) # k
Inv == Partition /\ Fewer /\ Flat /\ Windows /\ Once /\ Kinds
=============================================================================

------------------------------- MODULE RunsMC -------------------------------
(* The laws of Runs over every small step *)
EXTENDS Runs, TLC
CONSTANTS MaxN

Cc == {<<0>>, <<4>>, <<0, 4>>, <<-8, -4>>, <<-4, 4>>, <<0, 4, 12>>}
Few == {p \in Cc : Len(p) <= MaxN}
VARIABLES f, ready
vars == <<f, ready>>
Ax(n, g, p) == [n |-> n, given |-> g, p |-> p]
Numbers(n, by) == [k \in 1..n |-> by + 16 * k]
Fields(n) == <<[n |-> "rr", nc |-> 0, v |-> [k \in 1..n |-> IF k % 2 = 0 THEN 2 ELSE 4]],
               [n |-> "pp", nc |-> 0, v |-> Numbers(n, 0)],
               [n |-> "bx", nc |-> 0, v |-> Numbers(n, -48)], [n |-> "by", nc |-> 0, v |-> Numbers(n, 16)], [n |-> "bz", nc |-> 0, v |-> Numbers(n, 32)],
               [n |-> "v", nc |-> 3, v |-> Numbers(3 * n, 0)]>>
Bare(ax, order, at, gse, plane) == [fam |-> "ggcm", axes |-> ax, order |-> order, at |-> at, flds |-> <<>>, gse |-> gse, plane |-> plane]
Filled(b) == [b EXCEPT !.flds = Fields(Prod(Dims(b)))]
Init == /\ ready = FALSE
        /\ \E a \in Few, g \in {"centers", "nodes"}, gse \in BOOLEAN :
              /\ (g = "nodes" => Len(a) > 1)
              /\ f = [a |-> Ax("x", g, a), gse |-> gse]
Next == /\ ~ready
        /\ ready' = TRUE
        /\ \E b \in Few, c \in Few, o \in {"first", "last"}, at \in {"cell", "node"}, pl \in {<<>>, <<"x", 3>>, <<"y", -4>>} :
              /\ (Len(pl) > 0 => /\ f.a.given = "centers" /\ at = "cell" /\ Len(f.a.p) > 1 /\ Len(b) > 1 /\ Len(c) > 1)
              /\ (f.a.given = "nodes" => Len(b) > 1 /\ Len(c) > 1)
              /\ f' = Filled(Bare(<<f.a, Ax("y", f.a.given, b), Ax("z", f.a.given, c)>>, o, at, f.gse, pl))
Spec == Init /\ [][Next]_vars

Rising(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
Turn(g) == [g EXCEPT !.gse = ~@]
Ups == ready => \A k \in 1..3 : Rising(Nodes(f, k))
(* given centers lie within their cells; evenly spaced ones in the middle *)
Inside == (ready /\ Len(f.plane) = 0) => \A k \in 1..3 : f.axes[k].given = "centers" =>
    \A i \in 1..Len(f.axes[k].p) : Written(f, k)[i] < f.axes[k].p[i] /\ f.axes[k].p[i] < Written(f, k)[i + 1]
(* every number of the file is shown at exactly one place *)
Once == ready => {InFile(f, Places(f)[k]) : k \in 1..Len(Places(f))} = 0..(Prod(Dims(f)) - 1)
(* turning moves values along with their places, and turns the right components *)
Turned2 == (ready /\ Len(f.plane) = 0) =>
    LET g == Turn(f)
        d == Dims(f)
        At(ix) == <<d[1] - 1 - ix[1], d[2] - 1 - ix[2], ix[3]>>
    IN  /\ Dims(g) = d
        /\ \A k \in 1..3 : Nodes(g, k) = IF k = 3 THEN Nodes(f, k) ELSE Back(Nodes(f, k))
        /\ \A k \in 1..Len(Places(f)) :
              LET ix == Places(f)[k]
              IN  /\ Value(g, <<"f", "pp">>, At(ix)) = Value(f, <<"f", "pp">>, ix)
                  /\ Value(g, <<"f", "bx">>, At(ix)) = -Value(f, <<"f", "bx">>, ix)
                  /\ Value(g, <<"f", "bz">>, At(ix)) = Value(f, <<"f", "bz">>, ix)
                  /\ Value(g, <<"c", "v", 2>>, At(ix)) = -Value(f, <<"c", "v", 2>>, ix)
                  /\ Value(g, <<"c", "v", 3>>, At(ix)) = Value(f, <<"c", "v", 3>>, ix)
                  /\ Value(g, Meaning(g, "T")[1], At(ix)) = Value(f, Meaning(f, "T")[1], ix)
(* a plane is a layer of one cell *)
Thin == (ready /\ Len(f.plane) > 0) => \A k \in 1..3 : OnPlane(f, k) => Len(Nodes(f, k)) = 2
(* the size of a vector does not depend on how it is kept or turned *)
Ask == ready =>
    /\ Len(Meaning(f, "b")) = 3 /\ Meaning(f, "bx") = <<Meaning(f, "b")[1]>>
    /\ Meaning(f, "vy") = <<Meaning(f, "v")[2]>>
    /\ Meaning(f, "jx") = No /\ Meaning(f, "nosuch") = No
    /\ Meaning(f, "pp") = <<<<"f", "pp">>>>
=============================================================================

------------------------------- MODULE Crds -------------------------------
(* Structured coordinates.  An axis is the sequence of its node positions (integers; one unit is 1/32, node positions
   are multiples of 8 units, so that midpoints of midpoints are exact), in reading order, rising or falling. *)
EXTENDS Integers, Sequences, FiniteSets
Mid(a, b) == (a + b) \div 2
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Neg(x) == [i \in 1..Len(x) |-> -x[i]]
Reflect(x) == Neg(Rev(x))
Nodes(ax) == IF ax.refl THEN Reflect(ax.nc) ELSE ax.nc
(* cells lie between the nodes; a single node is its own cell *)
Cells(x) == IF Len(x) <= 1 THEN x ELSE [i \in 1..(Len(x) - 1) |-> Mid(x[i], x[i + 1])]
Lower(x) == SubSeq(x, 1, Len(x) - 1)
Steps(x) == [i \in 1..(Len(x) - 1) |-> x[i + 1] - x[i]]
Even(x) == \A i \in 2..(Len(x) - 1) : x[i + 1] - x[i] = x[2] - x[1]
Rising(x) == \A i \in 1..(Len(x) - 1) : x[i + 1] > x[i]
Falling(x) == \A i \in 1..(Len(x) - 1) : x[i + 1] < x[i]
SMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SMax(S) == CHOOSE a \in S : \A b \in S : a >= b
MinStep(x) == SMin({Steps(x)[i] : i \in 1..(Len(x) - 1)})

AxCells(ax) == IF ax.cc # <<>> THEN (IF ax.refl THEN Reflect(ax.cc) ELSE ax.cc) ELSE Cells(Nodes(ax))
(* where the values of each centering live along axis i, component j *)
At(ax, center, i, j) ==
    LET x == Nodes(ax)
    IN  CASE center \in {"none", "node"} -> x
          [] center = "cell" -> AxCells(ax)
          [] center = "face" -> IF i = j THEN Lower(x) ELSE AxCells(ax)
          [] center = "edge" -> IF i # j THEN Lower(x) ELSE AxCells(ax)

(* k more values in each direction, at frac = num/den of the outermost step *)
Extend(x, lo, hi, dl, dh) ==
    [i \in 1..lo |-> x[1] - (lo + 1 - i) * dl] \o x \o [i \in 1..hi |-> x[Len(x)] + i * dh]
ExtendFrac(x, w, lo, hi, num, den, dflt) ==
    IF Len(w) > 1 THEN Extend(x, lo, hi, ((w[2] - w[1]) * num) \div den, ((w[Len(w)] - w[Len(w) - 1]) * num) \div den)
    ELSE Extend(x, lo, hi, (dflt * num) \div den, (dflt * num) \div den)
(* the nodes around the old nodes: every old node gets a cell of its own *)
Around(x, c, dflt) == IF Len(x) = 1 THEN <<x[1] - dflt \div 2, x[1] + dflt \div 2>> ELSE ExtendFrac(c, x, 1, 1, 1, 1, dflt)

Prod(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 1 ELSE F[i - 1] * q[i] IN F[Len(q)]
(* point k (from 0) of the grid, last axis fastest *)
Point(xs, k) == [d \in 1..Len(xs) |-> xs[d][((k \div Prod([e \in 1..(Len(xs) - d) |-> Len(xs[d + e])])) % Len(xs[d])) + 1]]
Points(xs) == [k \in 1..Prod([d \in 1..Len(xs) |-> Len(xs[d])]) |-> Point(xs, k - 1)]
=============================================================================

------------------------------ MODULE FieldAlg ------------------------------
(* Fields as values.  A field is
     ax   axes in order: [n |-> name, p |-> positions of its values along that axis]
     nc   number of components (0: scalar)
     v    its values, C order over the axes, components varying fastest -- whatever the layout in memory
   All operators say what the result holds at each place, never how it is stored. *)
EXTENDS Integers, Sequences, FiniteSets

Dim(A) == [i \in 1..Len(A.ax) |-> Len(A.ax[i].p)]
C1(A) == IF A.nc = 0 THEN 1 ELSE A.nc
Full(A) == Dim(A) \o <<C1(A)>>
RECURSIVE ProdOf(_)
ProdOf(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdOf(Tail(q))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE MulSeq(_)
MulSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * MulSeq(Tail(q))
MaxOf(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= x
MinOf(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] >= x

(* the k-th (from 0) place of an array with these dimensions, indices from 0, and back *)
RECURSIVE Place(_, _)
Place(k, d) == IF d = <<>> THEN <<>>
               ELSE Place(k \div d[Len(d)], SubSeq(d, 1, Len(d) - 1)) \o <<k % d[Len(d)]>>
RECURSIVE Off(_, _)
Off(ix, d) == IF d = <<>> THEN 0 ELSE Off(SubSeq(ix, 1, Len(d) - 1), SubSeq(d, 1, Len(d) - 1)) * d[Len(d)] + ix[Len(d)]
Build(d, F(_)) == [k \in 1..ProdOf(d) |-> F(Place(k - 1, d))]
Get(v, d, ix) == v[Off(ix, d) + 1]
(* axes of length one stand for every place along them *)
GetB(v, d, ix) == Get(v, d, [i \in 1..Len(d) |-> IF d[i] = 1 THEN 0 ELSE ix[i]])

Max2(a, b) == IF a >= b THEN a ELSE b
(* operations between fields: place by place, a scalar field acts on each component *)
Bin(Op(_, _), A, B) ==
    LET da == Full(A)
        db == Full(B)
        d == [i \in 1..Len(da) |-> Max2(da[i], db[i])]
    IN  [ax |-> [i \in 1..Len(A.ax) |-> IF da[i] >= db[i] THEN A.ax[i] ELSE B.ax[i]],
         nc |-> Max2(A.nc, B.nc),
         v |-> Build(d, LAMBDA ix : Op(GetB(A.v, da, ix), GetB(B.v, db, ix)))]
Num(A, x) == [ax |-> [i \in 1..Len(A.ax) |-> [n |-> A.ax[i].n, p |-> <<0>>]], nc |-> 0, v |-> <<x>>]
(* an array that numpy would broadcast along the last axis *)
LastAx(A, q) == [ax |-> [i \in 1..Len(A.ax) |-> IF i = Len(A.ax) THEN A.ax[i] ELSE [n |-> A.ax[i].n, p |-> <<0>>]], nc |-> 0, v |-> q]
Un(Op(_), A) == [A EXCEPT !.v = [k \in 1..Len(A.v) |-> Op(A.v[k])]]

(* all values along a set of axes S (numbers of axes; Len(ax)+1: the components), folded *)
Fold(A, S, Op(_)) ==
    LET d == Full(A)
        r == [i \in 1..Len(d) |-> IF i \in S THEN 1 ELSE d[i]]
        along == [i \in 1..Len(d) |-> IF i \in S THEN d[i] ELSE 1]
        At(ix) == Op([k \in 1..ProdOf(along) |-> Get(A.v, d, LET j == Place(k - 1, along) IN [i \in 1..Len(d) |-> IF i \in S THEN j[i] ELSE ix[i]])])
    IN  Build(r, At)
(* an axis that was folded stays with length one, or goes; then all others of length one go with it
   (folding the components alone leaves the axes as they are) *)
RECURSIVE DropAx(_, _, _)
DropAx(ax, S, i) == IF i = 0 THEN <<>> ELSE IF i \in S \/ Len(ax[i].p) = 1 THEN DropAx(ax, S, i - 1) ELSE DropAx(ax, S, i - 1) \o <<ax[i]>>
Reduce(A, S, keep, Op(_)) ==
    [ax |-> IF keep THEN [i \in 1..Len(A.ax) |-> IF i \in S THEN [n |-> A.ax[i].n, p |-> <<A.ax[i].p[1]>>] ELSE A.ax[i]]
            ELSE IF S = {Len(A.ax) + 1} THEN A.ax
            ELSE DropAx(A.ax, S, Len(A.ax)),
     nc |-> IF A.nc = 0 \/ Len(A.ax) + 1 \in S THEN 0 ELSE A.nc,
     v |-> Fold(A, S, Op)]
(* running folds along an axis *)
Running(A, a, Op(_)) ==
    LET d == Full(A)
    IN  [A EXCEPT !.v = Build(d, LAMBDA ix : Op([k \in 1..(ix[a] + 1) |-> Get(A.v, d, [ix EXCEPT ![a] = k - 1])]))]
ArgMax(q) == (CHOOSE i \in 1..Len(q) : q[i] = MaxOf(q) /\ \A j \in 1..(i - 1) : q[j] # q[i]) - 1
ArgMin(q) == (CHOOSE i \in 1..Len(q) : q[i] = MinOf(q) /\ \A j \in 1..(i - 1) : q[j] # q[i]) - 1
(* twice the integral by trapezoids over an axis, p its positions *)
Trap2(q, p) == SumSeq([i \in 1..(Len(q) - 1) |-> (q[i] + q[i + 1]) * (p[i + 1] - p[i])])

(* components *)
Comp(A, c) == [ax |-> A.ax, nc |-> 0, v |-> [k \in 1..ProdOf(Dim(A)) |-> A.v[(k - 1) * A.nc + c]]]
Join(q) == [ax |-> q[1].ax, nc |-> Len(q),
            v |-> [k \in 1..(Len(q) * Len(q[1].v)) |-> q[((k - 1) % Len(q)) + 1].v[((k - 1) \div Len(q)) + 1]]]
(* the axes in another order: perm[i] is the old number of the new i-th axis *)
Perm(A, perm) ==
    LET m == Len(A.ax)
        d == [i \in 1..m |-> Len(A.ax[perm[i]].p)] \o <<C1(A)>>
        inv == [j \in 1..m |-> CHOOSE i \in 1..m : perm[i] = j]
    IN  [ax |-> [i \in 1..m |-> A.ax[perm[i]]], nc |-> A.nc,
         v |-> Build(d, LAMBDA ix : Get(A.v, Full(A), [j \in 1..m |-> ix[inv[j]]] \o <<ix[m + 1]>>))]
(* pairs of neighbours averaged (four times, eight times ... their mean is their sum) *)
Halve(A) ==
    LET d == Dim(A)
        m == Len(d)
        h == [i \in 1..m |-> d[i] \div 2]
        two == [i \in 1..m |-> 2]
    IN  Build(h, LAMBDA ix : SumSeq([k \in 1..ProdOf(two) |-> LET j == Place(k - 1, two) IN Get(A.v, d \o <<1>>, [i \in 1..m |-> 2 * ix[i] + j[i]] \o <<0>>)]))
(* as stored in memory *)
Stored(A, lay) ==
    IF A.nc = 0 \/ lay = "interlaced" THEN A.v
    ELSE LET n == ProdOf(Dim(A)) IN [k \in 1..(n * A.nc) |-> A.v[((k - 1) % n) * A.nc + ((k - 1) \div n) + 1]]
=============================================================================

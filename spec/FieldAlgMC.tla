----------------------------- MODULE FieldAlgMC -----------------------------
(* laws of the specification itself, on all small fields *)
EXTENDS FieldAlg, TLC
CONSTANTS Vals
VARIABLES A, B, done
Axes == {<<[n |-> "x", p |-> <<0, 1>>]>>, <<[n |-> "x", p |-> <<0, 2, 3>>], [n |-> "y", p |-> <<5>>]>>,
         <<[n |-> "x", p |-> <<0, 1>>], [n |-> "y", p |-> <<0, 4>>]>>}
Of(ax, nc) == LET n == ProdOf([i \in 1..Len(ax) |-> Len(ax[i].p)]) * (IF nc = 0 THEN 1 ELSE nc)
              IN  {[ax |-> ax, nc |-> nc, v |-> v] : v \in [1..n -> Vals]}
Init == \E ax \in Axes, na \in {0, 2}, nb \in {0, 2} :
            /\ A \in Of(ax, na)
            /\ \E z \in Vals : B = [ax |-> ax, nc |-> nb, v |-> [k \in 1..(ProdOf([i \in 1..Len(ax) |-> Len(ax[i].p)]) * (IF nb = 0 THEN 1 ELSE nb)) |-> (z + k * k) % 4]]
            /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<A, B>>
Spec == Init /\ [][Next]_<<A, B, done>>
Plus(x, y) == x + y
Minus(x, y) == x - y
M == Len(A.ax)
AllS == 1..(M + 1)
Commutes == Bin(Plus, A, B) = Bin(Plus, B, A)
ByComp == A.nc > 0 /\ B.nc > 0 => \A c \in 1..A.nc : Comp(Bin(Minus, A, B), c) = Bin(Minus, Comp(A, c), Comp(B, c))
ScalarOnEach == A.nc > 0 /\ B.nc = 0 => \A c \in 1..A.nc : Comp(Bin(Minus, A, B), c) = Bin(Minus, Comp(A, c), B)
Rejoin == A.nc > 0 => Join([c \in 1..A.nc |-> Comp(A, c)]) = A
Total == Fold(A, AllS, SumSeq) = <<SumSeq(A.v)>>
InSteps == \A a \in 1..M : SumSeq(Reduce(A, {a}, FALSE, SumSeq).v) = SumSeq(A.v)
KeepDrop == \A a \in 1..M : Reduce(A, {a}, TRUE, MaxOf).v = Reduce(A, {a}, FALSE, MaxOf).v
Transposed == \A p \in {q \in [1..M -> 1..M] : \A i, j \in 1..M : i # j => q[i] # q[j]} :
                 /\ Perm(Perm(A, p), [j \in 1..M |-> CHOOSE i \in 1..M : p[i] = j]) = A
                 /\ Perm(Bin(Plus, A, B), p) = Bin(Plus, Perm(A, p), Perm(B, p))
                 /\ SumSeq(Perm(A, p).v) = SumSeq(A.v)
LastRunning == \A a \in 1..M : LET R == Running(A, a, SumSeq)
                               IN  Fold(R, {a}, LAMBDA q : q[Len(q)]) = Fold(A, {a}, SumSeq)
Means == \A a \in 1..M : Bin(Minus, A, Reduce(A, {a}, TRUE, MinOf)).ax = A.ax
BothStored == A.nc > 0 => /\ SumSeq(Stored(A, "flat")) = SumSeq(Stored(A, "interlaced"))
                          /\ SubSeq(Stored(A, "flat"), 1, ProdOf(Dim(A))) = Comp(A, 1).v
=============================================================================

------------------------------ MODULE CrdsMC ------------------------------
EXTENDS Crds, TLC
CONSTANTS MaxN, Gaps
VARIABLES x, done
Init == x \in {<<0>>, <<8>>, <<-16>>} /\ done = FALSE
Grow == ~done /\ Len(x) < MaxN /\ \E g \in Gaps : x' = Append(x, x[Len(x)] + 8 * g) /\ done' = done
Flip == ~done /\ x' = Reflect(x) /\ done' = TRUE
Turn == ~done /\ Len(x) > 1 /\ x' = Rev(x) /\ done' = TRUE
Next == Grow \/ Flip \/ Turn
Spec == Init /\ [][Next]_<<x, done>>
Ax(b) == [nc |-> x, refl |-> b, cc |-> <<>>]
Ascending == IF Len(x) < 2 \/ x[2] > x[1] THEN Rising(x) ELSE Falling(x)
MirrorTwice == Reflect(Reflect(x)) = x /\ Rev(Rev(x)) = x
MirrorCells == Cells(Reflect(x)) = Reflect(Cells(x))
CellsBetween == Len(x) > 1 => /\ Len(Cells(x)) = Len(x) - 1
                              /\ \A i \in 1..(Len(x) - 1) : Cells(x)[i] - x[i] = x[i + 1] - Cells(x)[i]
EvenCells == Even(x) /\ Len(x) > 1 => Even(Cells(x))
(* changing the centering without changing the data: every old node lies in a cell of its own, in its middle if the
   spacing is even *)
AroundHolds ==
    LET y == Around(x, Cells(x), 16)
        d == IF Len(x) > 1 /\ x[2] < x[1] THEN -1 ELSE 1
    IN  /\ Len(y) = Len(x) + 1
             /\ \A i \in 1..Len(x) : d * y[i] < d * x[i] /\ d * x[i] < d * y[i + 1]
             /\ Even(x) => Cells(y) = x
FaceEdge == Len(x) > 1 => \A i, j \in 1..3 :
    /\ Len(At(Ax(FALSE), "face", i, j)) = Len(x) - 1 /\ Len(At(Ax(FALSE), "edge", i, j)) = Len(x) - 1
    /\ (i = j) = (At(Ax(FALSE), "edge", i, j) = At(Ax(FALSE), "cell", i, j))
ExtendHolds == \A lo, hi \in 0..2 :
    LET y == ExtendFrac(x, x, lo, hi, 1, 1, 8)
    IN  /\ Len(y) = Len(x) + lo + hi /\ SubSeq(y, lo + 1, lo + Len(x)) = x
        /\ Even(x) /\ Len(x) > 1 => Even(y)
PointsHold == \A m \in 1..2 :
    LET xs == <<x, SubSeq(<<0, 8>>, 1, m)>> IN
    /\ Len(Points(xs)) = Len(x) * m
    /\ \A a \in 1..Len(x), b \in 1..m : Points(xs)[(a - 1) * m + b] = <<xs[1][a], xs[2][b]>>
=============================================================================

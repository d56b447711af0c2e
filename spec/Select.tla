------------------------------- MODULE Select -------------------------------
(* Selecting elements of one axis.  A coordinate array c is an increasing sequence of integers (scaled values);
   positions are 0-based as in the library.  A selection of one axis is a tuple
     <<"all">>                       everything
     <<"i", k>>                      one position (negative counts from the end): drops the axis
     <<"v", x>>                      one location: drops the axis
     <<"s", lo, hi, step>>           lo, hi are <<"n">> (open), <<"i", k>> (position) or <<"v", x>> (location)
     <<"ia", ks>> <<"va", xs>> <<"m", bools>>   positions / locations / mask
   tol: how far a location may miss a coordinate and still count as equal to it. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

MinDiff(c) == IF Len(c) < 2 THEN 0 ELSE SetMin({c[i + 1] - c[i] : i \in 1..(Len(c) - 1)})
Tol(c) == MinDiff(c) \div 10000

(* 0-based position of the first coordinate not before x; Len(c) if there is none *)
FirstGE(c, x) == LET S == {i \in 1..Len(c) : c[i] + Tol(c) >= x} IN IF S = {} THEN Len(c) ELSE SetMin(S) - 1
(* 0-based position of the last coordinate not after x; -1 if there is none *)
LastLE(c, x) == LET S == {i \in 1..Len(c) : c[i] - Tol(c) <= x} IN IF S = {} THEN -1 ELSE SetMax(S) - 1
Nearest(c, x) == {i - 1 : i \in {j \in 1..Len(c) : \A k \in 1..Len(c) : Abs(c[j] - x) <= Abs(c[k] - x)}}

(* python's treatment of a position used as the end of a slice *)
Clamp(k, n, lo, hi) == LET p == IF k < 0 THEN k + n ELSE k IN Max2(lo, Min2(hi, p))

(* first position, and first position beyond the end, of a slice.  endpoint: a location used as the end of a slice
   is included.  interior: grow the slice by one element where the location lies outside of what is selected *)
Lo(c, lo, step, interior) ==
    LET n == Len(c)
        g == IF lo[1] = "v" /\ interior THEN 1 ELSE 0
    IN  IF step > 0
        THEN CASE lo[1] = "n" -> 0
               [] lo[1] = "i" -> Clamp(lo[2], n, 0, n)
               [] lo[1] = "v" -> LET p == FirstGE(c, lo[2])
                                 IN  IF interior /\ p > 0 /\ (p = n \/ c[p + 1] > lo[2]) THEN p - 1 ELSE p
        ELSE CASE lo[1] = "n" -> n - 1
               [] lo[1] = "i" -> Clamp(lo[2], n, -1, n - 1)
               [] lo[1] = "v" -> LET p == LastLE(c, lo[2])
                                 IN  IF interior /\ p < n - 1 /\ (p = -1 \/ c[p + 1] < lo[2]) THEN p + 1 ELSE p
Hi(c, hi, step, endpoint, interior) ==
    LET n == Len(c)
    IN  IF step > 0
        THEN CASE hi[1] = "n" -> n
               [] hi[1] = "i" -> Clamp(hi[2], n, 0, n)
               [] hi[1] = "v" -> LET p == LastLE(c, hi[2])
                                 IN  IF ~endpoint THEN Max2(p, 0)
                                     ELSE IF interior /\ p < n - 1 /\ (p = -1 \/ c[p + 1] < hi[2]) THEN p + 2 ELSE p + 1
        ELSE CASE hi[1] = "n" -> -1
               [] hi[1] = "i" -> Clamp(hi[2], n, -1, n - 1)
               [] hi[1] = "v" -> LET p == FirstGE(c, hi[2])
                                 IN  IF ~endpoint THEN p
                                     ELSE IF interior /\ p > 0 /\ (p = n \/ c[p + 1] > hi[2]) THEN p - 2 ELSE p - 1

Run(a, b, step) ==
    LET n == IF step > 0 THEN IF b > a THEN (b - a + step - 1) \div step ELSE 0
             ELSE IF a > b THEN (a - b + (-step) - 1) \div (-step) ELSE 0
    IN  [i \in 1..n |-> a + (i - 1) * step]

SliceIdx(c, lo, hi, step, endpoint, interior) ==
    Run(Lo(c, lo, step, interior), Hi(c, hi, step, endpoint, interior), step)

Pos(k, n) == IF k < 0 THEN k + n ELSE k
InRange(k, n) == k >= -n /\ k < n

(* the set of admissible answers: sequences of 0-based positions.  More than one where locations tie.
   Empty set: the selection must be refused *)
RECURSIVE AllNearest(_, _)
AllNearest(c, xs) ==
    IF xs = <<>> THEN {<<>>}
    ELSE {<<i>> \o r : i \in Nearest(c, Head(xs)), r \in AllNearest(c, Tail(xs))}
MaskIdx(bs) ==
    LET F[i \in 0..Len(bs)] == IF i = 0 THEN <<>> ELSE IF bs[i] THEN Append(F[i - 1], i - 1) ELSE F[i - 1]
    IN  F[Len(bs)]

Answers(c, sel, endpoint, interior) ==
    LET n == Len(c)
    IN  CASE sel[1] = "all" -> {Run(0, n, 1)}
          [] sel[1] = "i" -> IF InRange(sel[2], n) THEN {<<Pos(sel[2], n)>>} ELSE {}
          [] sel[1] = "v" -> {<<i>> : i \in Nearest(c, sel[2])}
          [] sel[1] = "s" -> {SliceIdx(c, sel[2], sel[3], sel[4], endpoint, interior)}
          [] sel[1] = "ia" -> IF \A i \in 1..Len(sel[2]) : InRange(sel[2][i], n)
                              THEN {[i \in 1..Len(sel[2]) |-> Pos(sel[2][i], n)]} ELSE {}
          [] sel[1] = "va" -> AllNearest(c, sel[2])
          [] sel[1] = "m" -> IF Len(sel[2]) = n THEN {MaskIdx(sel[2])} ELSE {}
Drops(sel) == sel[1] \in {"i", "v"}
=============================================================================

-------------------------------- MODULE Work --------------------------------
(* Work that is divided: contiguous and interleaved chunks of a list, and the parallel map. *)
EXTENDS Integers, Sequences, FiniteSets

(* how many chunks: as asked, or as many as give chunks of at most `size` *)
NChunks(n, k, size) == IF size = 0 THEN k ELSE (n + size - 1) \div size
(* lengths differ by one at most, longer chunks first *)
Sizes(n, k) == [i \in 1..k |-> n \div k + (IF i <= n % k THEN 1 ELSE 0)]
RECURSIVE SumTo(_, _)
SumTo(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumTo(q, i - 1)
Slices(n, k) == LET z == Sizes(n, k) IN [i \in 1..k |-> <<SumTo(z, i - 1), SumTo(z, i)>>]
Inter(n, k) == [i \in 1..k |-> [j \in 1..(IF n >= i THEN (n - i) \div k + 1 ELSE 0) |-> (i - 1) + (j - 1) * k]]
Range(a, b) == [i \in 1..(b - a) |-> a + i - 1]

(* the map: tasks are taken in order by at most w workers, and finish in any order *)
Started(st) == st.run \cup st.fin
Begin(st, w, n) ==
    LET free == w - Cardinality(st.run)
        left == n - Cardinality(Started(st))
        k == IF free < left THEN free ELSE left
    IN  [st EXCEPT !.run = @ \cup ((Cardinality(Started(st)) + 1)..(Cardinality(Started(st)) + k))]
Finish(st, i) == [run |-> st.run \ {i}, fin |-> st.fin \cup {i}]
=============================================================================

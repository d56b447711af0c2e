------------------------------- MODULE AmrMC -------------------------------
(* All tilings of a square that repeated splitting gives, all walks of points through them, and all selections *)
EXTENDS Amr, TLC
CONSTANTS W, Depth

VARIABLES P, act, t
vars == <<P, act, t>>

Cut(p, k, m) == << [p EXCEPT !.hi[k] = m], [p EXCEPT !.lo[k] = m] >>
Without(Q, i) == SubSeq(Q, 1, i - 1) \o SubSeq(Q, i + 1, Len(Q))
SplitsOf(Q) == UNION {UNION {{Without(Q, i) \o Cut(Q[i], k, m) : m \in (Q[i].lo[k] + 1)..(Q[i].hi[k] - 1)} : k \in 1..2} : i \in 1..Len(Q)}
RECURSIVE Tilings(_)
Tilings(d) == IF d = 0 THEN {<< [lo |-> <<0, 0>>, hi |-> <<W, W>>] >>}
              ELSE LET T == Tilings(d - 1) IN T \cup UNION {SplitsOf(Q) : Q \in T}
Pts == (0..(U * W)) \X (0..(U * W))
Init == P \in Tilings(Depth) /\ act \in 1..Len(P) /\ t = <<U * P[act].lo[1], U * P[act].lo[2]>>
Next == /\ P' = P
        /\ t' \in Pts
        /\ act' \in Activate(P, act, t')

(* ---- the patches cover the square without overlap *)
Cover == \A q \in Pts : Holders(P, q) # {}
Disjoint == \A q \in Pts : Cardinality({i \in 1..Len(P) : \A k \in 1..2 : U * P[i].lo[k] < q[k] /\ q[k] < U * P[i].hi[k]}) <= 1
(* ---- wherever the search came from, it ends in a patch that has the point *)
Found == Contains(P[act], t)
(* ---- neighbours: mutual; and two patches that share a point are neighbours *)
Mutual == \A i, j \in 1..Len(P) : (j \in Neighbors(P, i)) = (i \in Neighbors(P, j))
Shared == \A q \in Pts : \A i, j \in Holders(P, q) : i # j => j \in Neighbors(P, i)
BothSides == \A i \in 1..Len(P) : \A j \in Neighbors(P, i) : \A k \in 1..2 :
            Abut(P[i], P[j], k) => Side(P[i], P[j], k) = Flip(Side(P[j], P[i], k)) \/ Mid(P[i], k) = Mid(P[j], k)
(* ---- a selection: nothing that has part of it is left out, and a place is found in exactly its patches *)
Sel1 == {<<>>} \cup {<<a>> : a \in 0..W} \cup {<<a, b>> : a \in 0..W, b \in 0..W}
Fine(q) == Len(q) # 2 \/ q[1] < q[2]
NodesIn(p, sel) == {n \in (p.lo[1]..p.hi[1]) \X (p.lo[2]..p.hi[2]) : \A k \in 1..2 : From(sel[k]) <= n[k] /\ n[k] <= To(sel[k])}
AllIn(sel) == UNION {NodesIn(P[i], sel) : i \in 1..Len(P)}
Selections == \A x, y \in {q \in Sel1 : Fine(q)} :
                LET sel == <<x, y>> IN \A C \in Choices(P, sel) :
                    (* what is asked between two interior bounds is complete; at the upper edge it is asked of those that end there *)
                    /\ C # {}
                    /\ (\A k \in 1..2 : From(sel[k]) < W) => UNION {NodesIn(P[i], sel) : i \in C} = AllIn(sel)
                    /\ UNION {NodesIn(P[i], sel) : i \in C} # {}
Extent == GlobalLo(P) = <<0, 0>> /\ GlobalHi(P) = <<W, W>>
Inv == Cover /\ Disjoint /\ Found /\ Mutual /\ Shared /\ BothSides /\ Extent
(* once per tiling *)
InvSel == (act = 1 /\ t = <<U * P[1].lo[1], U * P[1].lo[2]>>) => Selections
=============================================================================

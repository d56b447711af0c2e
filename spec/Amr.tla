------------------------------- MODULE Amr -------------------------------
(* One field in several patches.  A patch is a field (as in FieldAlg, with Interp's units) and the box [lo, hi] its
   nodes span, one entry per axis.  The patches together stand for the whole: what is asked of the whole is
   answered by the patches that have it. *)
EXTENDS Interp

LOW == -100000000
HIGH == 100000000
Low2(a, b) == IF a <= b THEN a ELSE b

(* ---------------------------------------------------- which patches touch *)
Meet(p, q) == \A k \in 1..Len(p.lo) : Max2(p.lo[k], q.lo[k]) <= Low2(p.hi[k], q.hi[k])
Abut(p, q, k) == Max2(p.lo[k], q.lo[k]) = Low2(p.hi[k], q.hi[k])
Neighbors(P, i) == {j \in 1..Len(P) : j # i /\ Meet(P[i], P[j]) /\ \E k \in 1..Len(P[i].lo) : Abut(P[i], P[j], k)}
Mid(p, k) == p.lo[k] + p.hi[k]
(* the side on which p has q *)
Side(p, q, k) == IF Mid(p, k) >= Mid(q, k) THEN 1 ELSE 2
Flip(x) == 3 - x
Touching(p, q) == {k \in 1..Len(p.lo) : Abut(p, q, k)}
GlobalLo(P) == [k \in 1..Len(P[1].lo) |-> MinOf([i \in 1..Len(P) |-> P[i].lo[k]])]
GlobalHi(P) == [k \in 1..Len(P[1].hi) |-> MaxOf([i \in 1..Len(P) |-> P[i].hi[k]])]

(* ------------------------------------------------------------- selections *)
(* per axis: <<>> all of it, <<v>> the place v, <<a, b>> from a to b *)
From(q) == IF q = <<>> THEN LOW ELSE q[1]
To(q) == IF q = <<>> THEN HIGH ELSE q[Len(q)]
(* an axis along which no patch has an extent has every place *)
Thin(P, k) == \A i \in 1..Len(P) : P[i].lo[k] = P[i].hi[k]
Has(P, p, sel) == \A k \in 1..Len(sel) : Thin(P, k) \/ (p.lo[k] <= To(sel[k]) /\ From(sel[k]) < p.hi[k])
May(P, p, sel) == \A k \in 1..Len(sel) : Thin(P, k) \/ (p.lo[k] <= To(sel[k]) /\ From(sel[k]) <= p.hi[k])
(* these have part of the selection; one that only ends where the selection starts is asked if no other has it *)
Musts(P, sel) == {i \in 1..Len(P) : Has(P, P[i], sel)}
Mays(P, sel) == {i \in 1..Len(P) : May(P, P[i], sel)}
Choices(P, sel) == IF Musts(P, sel) = {} THEN SUBSET Mays(P, sel) \ {{}}
                   ELSE {C \in SUBSET Mays(P, sel) : Musts(P, sel) \subseteq C}

(* ----------------------------------------------------------------- points *)
(* t in units of points *)
Contains(p, t) == \A k \in 1..Len(t) : U * p.lo[k] <= t[k] /\ t[k] <= U * p.hi[k]
Holders(P, t) == {i \in 1..Len(P) : Contains(P[i], t)}
(* the search: where the last point was, its neighbours, anywhere *)
Activate(P, act, t) ==
    LET N == {j \in Neighbors(P, act) : Contains(P[j], t)}
    IN  IF Contains(P[act], t) THEN {act} ELSE IF N # {} THEN N ELSE Holders(P, t)
=============================================================================

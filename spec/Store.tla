------------------------------- MODULE Store -------------------------------
(* What is saved, and what is then found in the file.
   disk   path -> NoFile or [fmt, flds, time]; flds is a sequence of [n |-> name, A |-> field, center |-> ..]
   A field is as in FieldAlg: axes with positions, components, values.  Every format keeps every value at its place;
   they differ in which axes and times they know. *)
EXTENDS Integers, Sequences, FiniteSets
NoFile == [fmt |-> "none", flds |-> <<>>, time |-> 0]
Xyz == <<"x", "y", "z">>
(* always three axes, x y z; those that are missing have one place, at 0 *)
Padded(A) == [A EXCEPT !.ax = [i \in 1..3 |-> IF i <= Len(A.ax) THEN [n |-> Xyz[i], p |-> A.ax[i].p] ELSE [n |-> Xyz[i], p |-> <<0>>]]]
Can(fmt, flds) == flds # <<>> /\ (fmt = "h5" => \A i \in 1..Len(flds) : Len(flds[i].A.ax) <= 3)
IndexOf(q, n) == LET K == {i \in 1..Len(q) : q[i].n = n} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i >= j
(* the last of those with one name *)
RECURSIVE Last(_)
Last(q) == IF q = <<>> THEN <<>>
           ELSE LET f == Head(q) IN (IF IndexOf(Tail(q), f.n) # 0 THEN <<>> ELSE <<f>>) \o Last(Tail(q))
Written(fmt, flds, time) ==
    LET q == Last(flds)
    IN  IF fmt = "h5" THEN [fmt |-> fmt, flds |-> [i \in 1..Len(q) |-> [q[i] EXCEPT !.A = Padded(@)]], time |-> time]
        ELSE [fmt |-> fmt, flds |-> q, time |-> 0]
Names(c) == {c.flds[i].n : i \in 1..Len(c.flds)}
Save(disk, p, fmt, flds, time) == IF Can(fmt, flds) THEN [disk EXCEPT ![p] = Written(fmt, flds, time)] ELSE disk
(* from one file to another *)
Convert(disk, p, q, fmt) == IF disk[p] = NoFile THEN disk ELSE Save(disk, q, fmt, disk[p].flds, disk[p].time)
Found(c, n) == c.flds[IndexOf(c.flds, n)]
(* a part of a field: lo[i]..hi[i] along each axis, every st[i] *)
RECURSIVE Picks(_, _, _)
Picks(lo, hi, st) == IF lo >= hi THEN <<>> ELSE <<lo>> \o Picks(lo + st, hi, st)
RECURSIVE ProdOf(_)
ProdOf(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdOf(Tail(q))
Part(A, lo, hi, st) ==
    LET m == Len(A.ax)
        C == IF A.nc = 0 THEN 1 ELSE A.nc
        old == [i \in 1..m |-> Len(A.ax[i].p)]
        pk == [i \in 1..m |-> Picks(lo[i], hi[i], st[i])]
        new == [i \in 1..m |-> Len(pk[i])]
        Str(d) == [i \in 1..m |-> C * ProdOf(SubSeq(d, i + 1, m))]
        so == Str(old)
        sn == Str(new)
        At(k) == LET RECURSIVE Sum(_)
                     Sum(i) == IF i > m THEN 0 ELSE pk[i][(((k - 1) \div sn[i]) % new[i]) + 1] * so[i] + Sum(i + 1)
                 IN  Sum(1) + ((k - 1) % C) + 1
    IN  [A EXCEPT !.ax = [i \in 1..m |-> [A.ax[i] EXCEPT !.p = [j \in 1..new[i] |-> A.ax[i].p[pk[i][j] + 1]]]],
                  !.v = [k \in 1..(C * ProdOf(new)) |-> A.v[At(k)]]]
=============================================================================

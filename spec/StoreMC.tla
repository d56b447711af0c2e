----------------------------- MODULE StoreMC -----------------------------
(* every history of saving, overwriting and converting, over a few fields *)
EXTENDS Store, TLC, Json
VARIABLES disk, now, act
S1(x) == [ax |-> <<[n |-> "x", p |-> <<0, 2>>]>>, nc |-> 0, v |-> <<x, x + 1>>]
V2(x) == [ax |-> <<[n |-> "a", p |-> <<0, 2>>], [n |-> "b", p |-> <<4>>]>>, nc |-> 2, v |-> <<x, x + 1, x + 2, x + 3>>]
Sets == << << [n |-> "p", A |-> S1(1), center |-> "node"] >>,
           << [n |-> "p", A |-> S1(5), center |-> "cell"], [n |-> "q", A |-> S1(7), center |-> "node"] >>,
           << [n |-> "q", A |-> V2(3), center |-> "cell"], [n |-> "q", A |-> V2(8), center |-> "node"] >>,
           << >> >>
Times == <<4, 0, 9, 2>>
Paths == {"m.npz", "n.h5", "o.npz"}
Fmt(p) == IF p = "n.h5" THEN "h5" ELSE "npz"
Init == disk = [p \in Paths |-> NoFile] /\ now = [p \in Paths |-> <<>>] /\ act = [op |-> "init"]
DoSave(p, k) == /\ disk' = Save(disk, p, Fmt(p), Sets[k], Times[k])
                /\ now' = IF Sets[k] = <<>> THEN now ELSE [now EXCEPT ![p] = <<k>>]
                /\ act' = [op |-> "save", p |-> p, k |-> k]
DoConv(p, q) == /\ disk[p] # NoFile /\ p # q
                /\ disk' = Convert(disk, p, q, Fmt(q))
                /\ now' = [now EXCEPT ![q] = now[p]]
                /\ act' = [op |-> "conv", p |-> p, q |-> q]
Next == \/ \E p \in Paths, k \in 1..Len(Sets) : DoSave(p, k)
        \/ \E p \in Paths, q \in Paths : DoConv(p, q)
Spec == Init /\ [][Next]_<<disk, now, act>>
VS == <<disk, now>>
Kept(p) == LET c == disk[p]
               w == Last(Sets[now[p][1]])
           IN  /\ Len(c.flds) = Len(w) /\ Cardinality(Names(c)) = Len(w)
               /\ \A i \in 1..Len(w) : /\ c.flds[i].n = w[i].n /\ c.flds[i].A.v = w[i].A.v /\ c.flds[i].center = w[i].center
                                       /\ c.flds[i].A.nc = w[i].A.nc
                                       /\ \A j \in 1..Len(w[i].A.ax) : c.flds[i].A.ax[j].p = w[i].A.ax[j].p
LastSaved == \A p \in Paths : IF now[p] = <<>> THEN disk[p] = NoFile ELSE Kept(p)
Settled == \A p \in Paths : LET c == disk[p] IN c # NoFile =>
              Written(c.fmt, c.flds, c.time) = c
Whole == \A p \in Paths : \A i \in 1..Len(disk[p].flds) :
            LET A == disk[p].flds[i].A
                m == Len(A.ax)
            IN  Part(A, [j \in 1..m |-> 0], [j \in 1..m |-> Len(A.ax[j].p)], [j \in 1..m |-> 1]) = A
Emit == PrintT(ToJson(<<ToString(VS), act', ToString(VS')>>))
=============================================================================

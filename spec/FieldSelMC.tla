----------------------------- MODULE FieldSelMC -----------------------------
(* chains of selections from small fields: after every step each value still sits at the coordinates it was made at;
   every chain is printed and replayed on the library *)
EXTENDS FieldSel, TLC, Json
CONSTANTS Deep, Full      \* how many selections may follow each other; whether the second one ranges over everything
VARIABLES root, cur, map, path     \* the first field; the present one; origin of each value of the present one; selections
vars == <<root, cur, map, path>>

Mk(nm, nc) == [name |-> nm, nc |-> nc, cc |-> [i \in 1..(Len(nc) - 1) |-> (nc[i] + nc[i + 1]) \div 2]]
Roots == {[axes |-> <<Mk("x", <<0, 8, 32>>), Mk("y", <<-16, -8, 8, 16>>)>>, cell |-> c, ncomp |-> m] : c \in BOOLEAN, m \in {0, 3}}
          \cup {[axes |-> <<Mk("x", <<0, 16, 32>>), Mk("y", <<8, 24>>), Mk("z", <<-8, 0, 32>>)>>, cell |-> TRUE, ncomp |-> 0],
                [axes |-> <<Mk("x", <<0, 16, 32>>), Mk("y", <<8>>), Mk("z", <<-8, 0, 32>>)>>, cell |-> FALSE, ncomp |-> 0]}
Sl(a, b, s) == <<"s", a, b, s>>
N == <<"n">>
S1 == {<<"all">>, <<"i", 0>>, <<"i", -1>>, <<"v", 3>>, Sl(<<"i", 1>>, N, 1), Sl(N, <<"i", -1>>, 1), Sl(N, N, -1), Sl(N, N, 2),
       Sl(<<"v", 3>>, <<"v", 30>>, 1), <<"ia", <<0, -1>>>>}
S2 == {<<"i", -1>>, <<"v", 5>>, Sl(<<"i", 1>>, N, 1), Sl(N, <<"v", 9>>, 1)}
It(ax, s) == [ax |-> ax, sel |-> s]
Names == {cur.axes[i].name : i \in 1..Len(cur.axes)}
Items1 == {<<It("", a), It("", b)>> : a \in S1, b \in S1} \cup {<<It(nm, a)>> : nm \in Names, a \in S1}
          \cup {<<It("", <<"...">>), It("", a)>> : a \in S1} \cup {<<It("", <<"comp", 1>>), It("y", a)>> : a \in S1}
          \cup {<<It("", a), It("", <<"new">>)>> : a \in S2}
Items2 == IF ~Full THEN {<<It(nm, a)>> : nm \in Names, a \in {<<"i", -1>>, Sl(<<"i", 1>>, N, 1)}} ELSE
          {<<It(nm, a)>> : nm \in Names, a \in S2} \cup {<<It("", <<"comp", 0>>)>>}
Hows2 == IF Full THEN {"slice", "reduce", "keep"} ELSE {"slice"}
Hows == {"slice", "reduce", "keep"}

Nf == [j \in 1..Len(map) |-> 0]
NewAxis(e) == IF e.new THEN [name |-> e.name, nc |-> <<>>, cc |-> <<>>]
              ELSE LET ax == cur.axes[AxOf(cur, e.name)]
                   IN  [name |-> e.name, nc |-> IF cur.cell THEN IF ~e.arr /\ Unit(e.idx) THEN Edges(ax.nc, e.idx) ELSE <<>>
                                                ELSE Take(ax.nc, e.idx),
                        cc |-> IF cur.cell THEN Take(ax.cc, e.idx) ELSE <<>>]
(* fields that the next step may start from: ordinary ones *)
Ascending(c) == \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1]
Usable == \A i \in 1..Len(cur.axes) : cur.axes[i].nc # <<>> /\ Ascending(cur.axes[i].nc) /\ Len(cur.axes[i].name) <= 1

Step(its, how) ==
    LET r == Select(cur, its, how)
    IN  /\ (r.ok /\ ~r.empty) = TRUE
        /\ cur' = [axes |-> [i \in 1..Len(r.axes) |-> NewAxis(r.axes[i])], cell |-> cur.cell, ncomp |-> r.ncomp]
        /\ map' = [j \in 1..Len(r.data) |-> map[r.data[j] + 1]]
        /\ path' = Append(path, [items |-> its, how |-> how])
        /\ root' = root

RootSize(f) == Prod([i \in 1..Len(f.axes) |-> Len(Crd(f, i))]) * (IF f.ncomp = 0 THEN 1 ELSE f.ncomp)
Init == root \in Roots /\ cur = root /\ map = [j \in 1..RootSize(root) |-> j - 1] /\ path = <<>>
Next == \/ /\ path = <<>>
           /\ \E its \in Items1, how \in Hows : Step(its, how)
        \/ /\ (path # <<>> /\ Len(path) < Deep /\ Usable /\ Len(cur.axes) > 0) = TRUE
           /\ \E its \in Items2, how \in Hows2 : Step(its, how)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson(<<"chain", root, path'>>))

(* where value number j of the present field lies, and where value number k of the root lies *)
Comps(f) == IF f.ncomp = 0 THEN 1 ELSE f.ncomp
PosOf(f, lens, k, i) == ((k \div Comps(f)) \div Prod(SubSeq(lens, i + 1, Len(lens)))) % lens[i]
LensR == [i \in 1..Len(root.axes) |-> Len(Crd(root, i))]
LensC == [i \in 1..Len(cur.axes) |-> IF cur.axes[i].nc = <<>> /\ cur.axes[i].cc = <<>> THEN 1
                                     ELSE IF cur.cell THEN Len(cur.axes[i].cc) ELSE Len(cur.axes[i].nc)]
Whole == Len(map) = Prod(LensC) * Comps(cur)
Origin == \A j \in 1..Len(map) : \A i \in 1..Len(cur.axes) :
             LET a == AxOf(root, cur.axes[i].name)
                 cr == IF cur.cell THEN cur.axes[i].cc ELSE cur.axes[i].nc
             IN  a = 0 \/ cr[PosOf(cur, LensC, j - 1, i) + 1] = Crd(root, a)[PosOf(root, LensR, map[j], a) + 1]
(* components stay together and in order *)
Together == cur.ncomp > 0 => \A j \in 1..Len(map) : map[j] % cur.ncomp = (j - 1) % cur.ncomp
(* cell edges enclose the cell they belong to *)
Enclosed == cur.cell => \A i \in 1..Len(cur.axes) :
              LET ax == cur.axes[i]
              IN  ax.nc = <<>> \/ (Len(ax.nc) = Len(ax.cc) + 1 /\ \A k \in 1..Len(ax.cc) : ax.nc[k] < ax.cc[k] /\ ax.cc[k] < ax.nc[k + 1])
(* keep never loses an axis *)
KeepKeeps == [][(path'[Len(path')].how = "keep") => Len(cur'.axes) >= Len(cur.axes)]_vars
=============================================================================

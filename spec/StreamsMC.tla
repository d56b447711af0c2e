----------------------------- MODULE StreamsMC -----------------------------
(* every lattice field on a small grid, every seed, every choice of limits: a line taken step by step *)
EXTENDS Streams, TLC
CONSTANTS NV, N1, N2, Its
Vs == {<<<<0, 0, 0>>, <<1, 0, 0>>, <<0, -4, 0>>, <<-2, 0, 0>>, <<0, 1, 0>>>>[i] : i \in 1..NV}
VARIABLES F, O, seed, d, L
vars == <<F, O, seed, d, L>>
Unb == <<<<>>, <<>>, <<>>>>
Opts == {[ds |-> K, ibound |-> ib, obr |-> 0, lo |-> <<<<0>>, <<0>>, <<>>>>, hi |-> <<<<K * (N1 - 1)>>, <<K * (N2 - 1)>>, <<>>>>,
          maxlen |-> ml, maxt |-> mt, maxit |-> it, dirs |-> 3] :
            ib \in {0, (3 * K) \div 2}, ml \in {0, (5 * K) \div 2}, mt \in {0, (3 * K) \div 4}, it \in Its}
Seeds == {<<K * i, K * j, 0>> : i \in 0..(N1 - 1), j \in 0..(N2 - 1)}
Init == /\ F \in {[n |-> <<N1, N2, 1>>, o |-> <<0, 0, 0>>, v |-> v] : v \in [1..(N1 * N2) -> Vs]}
        /\ O \in Opts /\ seed \in Seeds /\ d \in {1, -1} /\ L = Start(seed)
Next == /\ L.end = {} /\ L' = Move(F, O, d, L) /\ UNCHANGED <<F, O, seed, d>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a line that goes on is inside, within its limits, and ends *)
Inside(p) == End([O EXCEPT !.maxlen = 0, !.maxt = 0], p, 0, 0) = {}
GoesOn == L.end = {} => /\ \A i \in 1..Len(L.pts) : Inside(L.pts[i])
                        /\ Len(L.pts) < O.maxit
                        /\ O.maxlen > 0 => L.len < O.maxlen
                        /\ O.maxt > 0 => L.t < O.maxt
EndsOnce == L.end # {} => \A i \in 1..(Len(L.pts) - 1) : Inside(L.pts[i])
Bounded == Len(L.pts) <= O.maxit
Went == [i \in 1..Len(L.pts) |-> LET a == IF i = 1 THEN seed ELSE L.pts[i - 1] IN Mag(L.pts[i][1] - a[1]) + Mag(L.pts[i][2] - a[2]) + Mag(L.pts[i][3] - a[3])]
RECURSIVE Tot(_)
Tot(q) == IF q = <<>> THEN 0 ELSE Head(q) + Tot(Tail(q))
(* the limits hold exactly for what is drawn: the last step is cut *)
NotLonger == /\ O.maxlen > 0 => Tot(Went) <= O.maxlen
             /\ L.end = MaxLen => (Tot(Went) = O.maxlen \/ O.maxt > 0)
             /\ \A i \in 1..(Len(Went) - 1) : Went[i] = O.ds
RECURSIVE Time(_, _)
Time(p, q) == IF q = <<>> THEN 0 ELSE (Mag(q[1][1] - p[1]) + Mag(q[1][2] - p[2]) + Mag(q[1][3] - p[3])) \div Speed(Vec(F, p)) + Time(q[1], Tail(q))
NotSlower == O.maxt > 0 => Time(seed, L.pts) <= O.maxt
(* against the field is along the opposite field *)
Opposite == L.end # {} => LET G == [F EXCEPT !.v = [i \in 1..Len(F.v) |-> [a \in 1..3 |-> -F.v[i][a]]]]
                          IN  Trace1(G, O, -d, seed) = L
Single == L.end # {} => Trace1(F, O, d, seed) = L
Meaning == L.end # {} => /\ Topology(L.end) \in {Closed, OpenNorth, OpenSouth, SolarWind} \/ Topology(L.end) > 4096
                         /\ Topology(L.end) = Closed <=> 1 \in L.end
                         /\ Topology(L.end \cup OBound(16)) = OpenNorth <=> 2 \in L.end
Ends == <>(L.end # {})
=============================================================================

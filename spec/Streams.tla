------------------------------ MODULE Streams ------------------------------
(* Field lines on a lattice.  A field has a vector at each place of a grid of unit spacing: dims n, first place at
   o (in units of 1/K), vectors v in the order of the places, each along one axis (or zero).  A line starts from
   a seed and takes steps of length ds along (d = 1) or against (d = -1) the vector where it is, until it leaves
   the region, or has gone far, long or often enough.  Along an axis of one place nothing moves and nothing bounds. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT K

Sq(x) == x * x
MinI(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Mag(x) == IF x < 0 THEN -x ELSE x
(* ---------------------------------------------------------------- fields *)
Clip(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
(* the place at s, or the place of the edge nearest to s *)
Where(F, s) == [a \in 1..3 |-> IF F.n[a] = 1 THEN 0 ELSE Clip((s[a] - F.o[a]) \div K, F.n[a])]
Vec(F, s) == LET i == Where(F, s)
                 w == F.v[(i[1] * F.n[2] + i[2]) * F.n[3] + i[3] + 1]
             IN  [a \in 1..3 |-> IF F.n[a] = 1 THEN 0 ELSE w[a]]
Speed(w) == Mag(w[1]) + Mag(w[2]) + Mag(w[3])

(* ------------------------------------------------------ how a line ends *)
IBoundN == {1, 2}
IBoundS == {1, 4}
OBound(k) == {8, k}
MaxIt == {4096, 8192}
MaxLen == {4096, 16384}
MaxT == {4096, 32768}
Zero == {4096, 65536}
(* O: [ds, ibound, obr, lo, hi (bounds, <<>>: none), maxlen, maxt, maxit, dirs]; lengths in 1/K, 0: no limit *)
End(O, s, len, t) ==
    LET r2 == Sq(s[1]) + Sq(s[2]) + Sq(s[3])
        below(a) == O.lo[a] # <<>> /\ s[a] < O.lo[a][1]
        above(a) == O.hi[a] # <<>> /\ s[a] > O.hi[a][1]
    IN  IF r2 < Sq(O.ibound) THEN (IF s[3] >= 0 THEN IBoundN ELSE IBoundS)
        ELSE IF O.obr # 0 /\ r2 > Sq(O.obr) THEN OBound(1024)
        ELSE IF below(1) THEN OBound(16)
        ELSE IF below(2) THEN OBound(64)
        ELSE IF below(3) THEN OBound(256)
        ELSE IF above(1) THEN OBound(32)
        ELSE IF above(2) THEN OBound(128)
        ELSE IF above(3) THEN OBound(512)
        ELSE IF O.maxlen > 0 /\ len >= O.maxlen THEN MaxLen
        ELSE IF O.maxt > 0 /\ t >= O.maxt THEN MaxT
        ELSE {}

(* ------------------------------------------------------------- one step *)
Start(seed) == [s |-> seed, len |-> 0, t |-> 0, end |-> {}, pts |-> <<>>]
Move(F, O, d, L) ==
    LET w == Vec(F, L.s)
        m == Speed(w)
        dt == O.ds \div m
        (* the last step is cut so that the line is no longer, and takes no longer, than allowed *)
        h == MinI(MinI(O.ds, IF O.maxlen > 0 THEN O.maxlen - L.len ELSE O.ds), IF O.maxt > 0 THEN (O.maxt - L.t) * m ELSE O.ds)
        q == [a \in 1..3 |-> L.s[a] + d * h * Sgn(w[a])]
        e == End(O, q, L.len + O.ds, L.t + dt)
        p == Append(L.pts, q)
    IN  IF m = 0 THEN [L EXCEPT !.end = Zero]
        ELSE [s |-> q, len |-> L.len + O.ds, t |-> L.t + dt, pts |-> p,
              end |-> IF e # {} THEN e ELSE IF Len(p) = O.maxit THEN MaxIt ELSE {}]
RECURSIVE Run(_, _, _, _)
Run(F, O, d, L) == IF L.end # {} THEN L ELSE Run(F, O, d, Move(F, O, d, L))
Trace1(F, O, d, seed) == Run(F, O, d, Start(seed))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
(* the whole line, from its far end against the field to its far end along the field *)
Line(F, O, seed) ==
    LET b == IF O.dirs \in {2, 3} THEN Trace1(F, O, -1, seed) ELSE Start(seed)
        f == IF O.dirs \in {1, 3} THEN Trace1(F, O, 1, seed) ELSE Start(seed)
    IN  [pts |-> Rev(b.pts) \o <<seed>> \o f.pts, ends |-> b.end \cup f.end]

(* -------------------------------------------------------- what it means *)
RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + Bits(S \ {x})
Flags == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
Closed == 1
OpenNorth == 2
OpenSouth == 4
SolarWind == 8
Topology(ends) ==
    IF 4096 \in ends THEN Bits(ends)
    ELSE IF {1, 2, 8} \subseteq ends THEN OpenNorth
    ELSE IF {1, 4, 8} \subseteq ends THEN OpenSouth
    ELSE IF 1 \in ends THEN Closed
    ELSE SolarWind
=============================================================================

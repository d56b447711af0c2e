--------------------------- MODULE StreamsTrace ---------------------------
EXTENDS Streams, TraceBase
I == INSTANCE Interp WITH U <- 32
(* lines on lattices: exactly so *)
Lattice(e) ==
    LET L == [i \in 1..Len(e.seeds) |-> Line(e.F, e.O, e.seeds[i])]
        lines == IF e.lines = <<>> THEN <<>> ELSE Chk("lines", e.lines[1], [i \in 1..Len(L) |-> L[i].pts])
        code(i) == IF e.style = "msphere" THEN Topology(L[i].ends) ELSE Bits(L[i].ends)
        topo == IF e.topo = <<>> THEN <<>> ELSE Chk("topology", e.topo[1], [i \in 1..Len(L) |-> code(i)])
    IN  lines \o topo

(* lines of any field, measured in 1/K with an uncertainty of 2 *)
R2(p) == Sq(p[1]) + Sq(p[2]) + Sq(p[3])
Tol == 2
Beyond(O, a, g, p, tol) == IF g = -1 THEN O.lo[a] # <<>> /\ p[a] < O.lo[a][1] + tol
                                     ELSE O.hi[a] # <<>> /\ p[a] > O.hi[a][1] - tol
(* the ends that a point may be *)
Inner(O, p, tol) == O.ibound > 0 /\ R2(p) < Sq(O.ibound + tol)
Outer(O, p, tol) == O.obr > 0 /\ R2(p) > Sq(O.obr - tol)
EndsAt(O, p, n, len) ==
    (IF Inner(O, p, Tol) THEN (IF p[3] >= -Tol THEN {IBoundN} ELSE {}) \cup (IF p[3] <= Tol THEN {IBoundS} ELSE {}) ELSE {})
    \cup (IF Inner(O, p, -Tol) THEN {}
          ELSE (IF Outer(O, p, Tol) THEN {OBound(1024)} ELSE {})
               \cup (IF Outer(O, p, -Tol) THEN {}
                     ELSE {OBound(IF g = -1 THEN <<16, 64, 256>>[a] ELSE <<32, 128, 512>>[a]) :
                             <<a, g>> \in {x \in (1..3) \X {1, -1} : Beyond(O, x[1], x[2], p, Tol)}}
                          \cup (IF \E a \in 1..3, g \in {1, -1} : Beyond(O, a, g, p, -Tol) THEN {}
                                ELSE (IF n = O.maxit THEN {MaxIt} ELSE {})
                                     \cup (IF O.maxlen > 0 /\ len >= O.maxlen - Tol * (n + 1) - (O.under * O.maxlen) \div 100 THEN {MaxLen} ELSE {}))))
Clear(O, p) == ~Inner(O, p, -Tol) /\ ~Outer(O, p, -Tol) /\ \A a \in 1..3, g \in {1, -1} : ~Beyond(O, a, g, p, -Tol)
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
(* one direction: points outward from the seed, lengths of the pieces *)
Half(O, pts, seg) ==
    LET n == Len(pts)
    IN  << <<"goes on", \A i \in 1..(n - 1) : Clear(O, pts[i])>>,
           <<"iterations", n <= O.maxit>>,
           <<"steps", /\ \A i \in 1..n : seg[i] <= O.most + Tol
                      /\ O.fixed => \A i \in 1..(n - 1) : seg[i] >= O.least - Tol>>,
           <<"length", O.maxlen > 0 => SumTo(seg, n) <= O.maxlen + Tol * n + (O.over * O.maxlen) \div 100>> >>
Bad(q) == SelectSeq(q, LAMBDA x : ~x[2])
LawOne(O, x) ==
    LET k == x.k
        n == Len(x.pts)
        back == [i \in 1..(k - 1) |-> x.pts[k - i]]
        bseg == [i \in 1..(k - 1) |-> x.seg[k - i]]
        forw == [i \in 1..(n - k) |-> x.pts[k + i]]
        fseg == [i \in 1..(n - k) |-> x.seg[k + i - 1]]
        eb == IF O.dirs \notin {2, 3} THEN {{}} ELSE IF k = 1 THEN {} ELSE EndsAt(O, x.pts[1], k - 1, SumTo(bseg, k - 1))
        ef == IF O.dirs \notin {1, 3} THEN {{}} ELSE IF k = n THEN {} ELSE EndsAt(O, x.pts[n], n - k, SumTo(fseg, n - k))
    IN  Bad(<< <<"seed", x.k > 0>>,
               <<"directions", (O.dirs = 1 => k = 1) /\ (O.dirs = 2 => k = n)>> >>
            \o Half(O, back, bseg) \o Half(O, forw, fseg)
            \o << <<"ends", \E a \in eb, b \in ef : Bits(a \cup b) = x.flags>> >>)
RECURSIVE Laws(_, _, _)
Laws(O, q, i) == IF i > Len(q) THEN <<>> ELSE LawOne(O, q[i]) \o Laws(O, q, i + 1)

(* an invariant of the field stays what it is along the line *)
Inv(e, p) == CASE e.f = "circle" -> (Sq(p[1] - e.c[1]) + Sq(p[2] - e.c[2])) \div 64
               [] e.f = "saddle" -> ((p[1] - e.c[1]) * (p[2] - e.c[2])) \div 64
Keep(e) == ChkT("invariant", \A i \in 1..Len(e.pts) : /\ Mag(Inv(e, e.pts[i]) - Inv(e, e.seed)) <= e.tol
                                                      /\ Mag(e.pts[i][3] - e.seed[3]) <= 1)
(* an Euler step goes along the vector where it starts; steps in thousandths, points in 1/64 *)
Along(e) == ChkT("along", \A i \in 1..Len(e.steps) :
                LET g == e.steps[i].g
                    den == I!Denom(e.a, e.steps[i].t)
                    q == IF den > 4096 THEN 8 ELSE 1   \* no numbers of more than 31 bits
                    w == [c \in 1..3 |-> (1000 * (I!Numer(e.a, c, e.steps[i].t) \div q)) \div (den \div q)]
                    x(a, b) == Mag(g[a] * w[b] - g[b] * w[a])
                    big == 300 * Speed(g) + 2 * Speed(w) + 500
                IN  Speed(w) > 600 => /\ g[1] * w[1] + g[2] * w[2] + g[3] * w[3] > 0
                                      /\ x(1, 2) <= big /\ x(2, 3) <= big /\ x(1, 3) <= big)
Judge(init, e) ==
    IF e.exc # "" THEN << <<"runs", TRUE>> >>
    ELSE ChkT("pure", e.pure)
         \o CASE e.op = "lattice" -> Lattice(e)
              [] e.op = "law" -> Laws(e.O, e.q, 1)
              [] e.op = "keep" -> Keep(e)
              [] e.op = "along" -> Along(e)
              [] e.op = "same" -> ChkT("same", e.same)
              [] e.op = "translate" -> Chk("topology", e.ms, [i \in 1..Len(e.gen) |-> Topology({b \in Flags : (e.gen[i] \div b) % 2 = 1})])
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

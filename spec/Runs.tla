-------------------------------- MODULE Runs --------------------------------
(* What a step of a simulation run shows: the fields kept in its file, each number at its place, and the quantities the
   program's users ask for by name, which are made from those.

   A step is [fam, axes, order, at, flds, req, plane]:
     fam    family of programs: "athena", "gkeyll", "ggcm", "psc", "none"
     axes   sequence of [n |-> name, given |-> "centers" or "nodes", p |-> positions as written]
     order  "first": the first axis changes fastest in the file, "last": the last one
     flds   sequence of [n |-> name, nc |-> 0 for a scalar or number of components, v |-> the numbers in the file];
            components stand together
     gse    mirrored: positions and vectors of the simulation have x and y the other way
     plane  <<>>, or <<axis, location>>: the fields are the one layer of cells nearest to that location
   Positions are multiples of 1/4 (so that middles are whole), numbers are whole. *)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Has(f, n) == \E k \in 1..Len(f.flds) : f.flds[k].n = n
Fld(f, n) == f.flds[CHOOSE k \in 1..Len(f.flds) : f.flds[k].n = n]

(* ---------------------------------------------------------------- positions *)
Steps(p) == {p[k + 1] - p[k] : k \in 1..(Len(p) - 1)}
(* a lone center gets a cell as wide as the narrowest cell along the other axes, or 1 *)
Lone(f) == LET w == UNION {Steps(f.axes[k].p) : k \in 1..Len(f.axes)} IN IF w = {} THEN 4 ELSE Min(w)
Around(p, lone) ==
    LET n == Len(p)
    IN  IF n = 1 THEN <<p[1] - lone \div 2, p[1] + lone \div 2>>
        ELSE [k \in 1..(n + 1) |-> IF k = 1 THEN p[1] - (p[2] - p[1]) \div 2
                                   ELSE IF k = n + 1 THEN p[n] + (p[n] - p[n - 1]) \div 2
                                   ELSE p[k - 1] + (p[k] - p[k - 1]) \div 2]
Back(p) == [k \in 1..Len(p) |-> -p[Len(p) + 1 - k]]
Turned(f, k) == f.gse /\ f.axes[k].n \in {"x", "y"}
Written(f, k) == LET a == f.axes[k] IN IF a.given = "centers" THEN Around(a.p, Lone(f)) ELSE a.p
(* the layer of a plane: its place is told in the turned system *)
Layer(f, k) == LET loc == IF Turned(f, k) THEN -f.plane[2] ELSE f.plane[2]
                   p == f.axes[k].p
               IN  CHOOSE i \in 1..Len(p) : \A j \in 1..Len(p) : Dist(p[i], loc) < Dist(p[j], loc) \/ (Dist(p[i], loc) = Dist(p[j], loc) /\ i <= j)
OnPlane(f, k) == Len(f.plane) > 0 /\ f.plane[1] = f.axes[k].n
Nodes(f, k) == LET w == Written(f, k)
                   c == IF OnPlane(f, k) THEN SubSeq(w, Layer(f, k), Layer(f, k) + 1) ELSE w
               IN  IF Turned(f, k) THEN Back(c) ELSE c
Positions(f) == [k \in 1..Len(f.axes) |-> <<f.axes[k].n, Nodes(f, k)>>]

(* ------------------------------------------------------------------- numbers *)
Dim(f, k) == Len(Nodes(f, k)) - (IF f.at = "cell" THEN 1 ELSE 0)
Dims(f) == [k \in 1..Len(f.axes) |-> Dim(f, k)]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
(* the place (from 0, along each axis) of the k-th number when the last axis changes fastest *)
RECURSIVE Place(_, _)
Place(d, k) == IF d = <<>> THEN <<>>
               ELSE LET r == Prod(Tail(d)) IN <<k \div r>> \o Place(Tail(d), k % r)
RECURSIVE Rank(_, _)
Rank(d, ix) == IF d = <<>> THEN 0 ELSE Head(ix) * Prod(Tail(d)) + Rank(Tail(d), Tail(ix))
Reversed(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
(* where the file has the number for a place *)
InFile(f, ix) ==
    LET d == Dims(f)
        jx == [k \in 1..Len(d) |-> IF Turned(f, k) THEN d[k] - 1 - ix[k] ELSE ix[k]]
    IN  IF f.order = "last" THEN Rank(d, jx) ELSE Rank(Reversed(d), Reversed(jx))

(* quantities that change sign when x and y do *)
Flips == {"bx", "by", "ex", "ey", "vx", "vy", "xjx", "xjy", "jx", "jy", "eflx", "efly", "rv1x", "rv1y", "b1x", "b1y"}
Sign(f, n, c) == IF ~f.gse THEN 1 ELSE IF c > 0 THEN (IF c <= 2 THEN -1 ELSE 1) ELSE IF n \in Flips THEN -1 ELSE 1
(* component c (0: the scalar itself) of a kept field at a place *)
Kept(f, n, c, ix) ==
    LET g == Fld(f, n)
        k == InFile(f, ix)
    IN  Sign(f, n, c) * (IF g.nc = 0 THEN g.v[k + 1] ELSE g.v[k * g.nc + c])

(* ------------------------------------------------------ quantities by name
   an expression: <<"f", name>>, <<"c", name, component>>, <<"*" or "/" or "-", a, b>>; a quantity is a sequence of
   expressions, one per component; <<"size", a, b, c>> is the length of a vector *)
SF(n) == <<"f", n>>
Axis3 == <<"x", "y", "z">>
No == <<>>
Athena(f, n) ==
    LET B(k) == IF Has(f, <<"B1c", "B2c", "B3c">>[k]) THEN SF(<<"B1c", "B2c", "B3c">>[k])
                ELSE IF Has(f, <<"B1", "B2", "B3">>[k]) THEN SF(<<"B1", "B2", "B3">>[k]) ELSE No
        M == <<"M1", "M2", "M3">>
        V == <<"V1", "V2", "V3">>
        Vel(k) == IF Has(f, V[k]) THEN SF(V[k]) ELSE IF Has(f, M[k]) /\ Has(f, "d") THEN <<"/", SF(M[k]), SF("d")>> ELSE No
        Mom(k) == IF Has(f, M[k]) THEN SF(M[k]) ELSE IF Has(f, V[k]) /\ Has(f, "d") THEN <<"*", SF(V[k]), SF("d")>> ELSE No
        One(e) == IF e = No THEN No ELSE <<e>>
        Three(a, b, c) == IF a = No \/ b = No \/ c = No THEN No ELSE <<a, b, c>>
        Size(q) == IF q = No THEN No ELSE <<<<"size">> \o q>>
    IN  CASE n = "rr" -> IF Has(f, "d") THEN <<SF("d")>> ELSE No
          [] n = "p" \/ n = "pp" -> IF Has(f, "P") THEN <<SF("P")>> ELSE No
          [] n = "bx" -> One(B(1)) [] n = "by" -> One(B(2)) [] n = "bz" -> One(B(3))
          [] n = "vx" -> One(Vel(1)) [] n = "vy" -> One(Vel(2)) [] n = "vz" -> One(Vel(3))
          [] n = "mx" -> One(Mom(1)) [] n = "my" -> One(Mom(2)) [] n = "mz" -> One(Mom(3))
          [] n = "b" -> Three(B(1), B(2), B(3))
          [] n = "v" -> Three(Vel(1), Vel(2), Vel(3))
          [] n = "bmag" -> Size(Three(B(1), B(2), B(3)))
          [] n = "speed" -> Size(Three(Vel(1), Vel(2), Vel(3)))
          [] OTHER -> No
(* species e and i; components 1 to 3 *)
Mo(k, s) == <<"rhoux_", "rhouy_", "rhouz_">>[k] \o s
Gkeyll(f, n) ==
    LET Vel(k, s) == IF Has(f, Mo(k, s)) THEN <<"/", SF(Mo(k, s)), SF("rho_" \o s)>> ELSE No
        Pr(a, i, k, s) == LET q == "p" \o a \o "_" \o s
                          IN  IF Has(f, q) THEN <<"-", SF(q), <<"/", <<"*", SF(Mo(i, s)), SF(Mo(k, s))>>, SF("rho_" \o s)>>>> ELSE No
        One(e) == IF e = No THEN No ELSE <<e>>
        hit == {<<i, s>> \in (1..3) \X {"e", "i"} : n = "u" \o Axis3[i] \o "_" \o s}
        phit == {<<i, k, s>> \in (1..3) \X (1..3) \X {"e", "i"} : i <= k /\ n = "P" \o Axis3[i] \o Axis3[k] \o "_" \o s}
    IN  CASE hit # {} -> LET h == CHOOSE h \in hit : TRUE IN One(Vel(h[1], h[2]))
          [] phit # {} -> LET h == CHOOSE h \in phit : TRUE IN One(Pr(Axis3[h[1]] \o Axis3[h[2]], h[1], h[2], h[3]))
          [] n \in {"u_e", "u_i"} /\ Has(f, "rho_e") ->
                LET s == IF n = "u_e" THEN "e" ELSE "i" IN <<Vel(1, s), Vel(2, s), Vel(3, s)>>
          [] n = "b" /\ Has(f, "Bx") -> <<SF("Bx"), SF("By"), SF("Bz")>>
          [] OTHER -> No
Ggcm(f, n) ==
    LET Vec(v) == IF Has(f, v) THEN <<<<"c", v, 1>>, <<"c", v, 2>>, <<"c", v, 3>>>>
                  ELSE IF \A k \in 1..3 : Has(f, v \o Axis3[k]) THEN <<SF(v \o "x"), SF(v \o "y"), SF(v \o "z")>> ELSE No
        Comp(v, k) == LET q == Vec(v) IN IF q = No THEN No ELSE <<q[k]>>
        Size(q) == IF q = No THEN No ELSE <<<<"size">> \o q>>
        Cur == IF \A k \in 1..3 : Has(f, "xj" \o Axis3[k]) THEN <<SF("xjx"), SF("xjy"), SF("xjz")>> ELSE No
    IN  CASE n = "T" -> IF Has(f, "pp") /\ Has(f, "rr") THEN <<<<"/", SF("pp"), SF("rr")>>>> ELSE No
          [] n = "b" \/ n = "b_cc" -> IF n = "b_cc" /\ Has(f, "b") THEN Vec("b") ELSE Vec("b")
          [] n = "v" -> Vec("v")
          [] n = "bx" -> Comp("b", 1) [] n = "by" -> Comp("b", 2) [] n = "bz" -> Comp("b", 3)
          [] n = "vx" -> Comp("v", 1) [] n = "vy" -> Comp("v", 2) [] n = "vz" -> Comp("v", 3)
          [] n = "jx" -> IF Cur = No THEN No ELSE <<Cur[1]>>
          [] n = "jy" -> IF Cur = No THEN No ELSE <<Cur[2]>>
          [] n = "jz" -> IF Cur = No THEN No ELSE <<Cur[3]>>
          [] n = "j" \/ n = "xj" -> Cur
          [] n = "bmag" -> Size(Vec("b"))
          [] n = "speed" -> Size(Vec("v"))
          [] n = "jmag" -> Size(Cur)
          [] OTHER -> No
Psc(f, n) ==
    LET Vec(v) == IF \A k \in 1..3 : Has(f, v \o Axis3[k]) THEN <<SF(v \o "x"), SF(v \o "y"), SF(v \o "z")>> ELSE No
    IN  CASE n = "bx" -> IF Has(f, "hx") THEN <<SF("hx")>> ELSE No
          [] n = "by" -> IF Has(f, "hy") THEN <<SF("hy")>> ELSE No
          [] n = "bz" -> IF Has(f, "hz") THEN <<SF("hz")>> ELSE No
          [] n = "b" \/ n = "h" -> Vec("h")
          [] n = "e" -> Vec("e") [] n = "j" -> Vec("j")
          [] OTHER -> No
Meaning(f, n) ==
    IF Has(f, n) THEN LET g == Fld(f, n) IN IF g.nc = 0 THEN <<SF(n)>> ELSE [c \in 1..g.nc |-> <<"c", n, c>>]
    ELSE CASE f.fam = "athena" -> Athena(f, n) [] f.fam = "gkeyll" -> Gkeyll(f, n)
           [] f.fam = "ggcm" -> Ggcm(f, n) [] f.fam = "psc" -> Psc(f, n) [] OTHER -> No

IDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
RECURSIVE Value(_, _, _)
Value(f, e, ix) ==
    CASE e[1] = "f" -> Kept(f, e[2], 0, ix)
      [] e[1] = "c" -> Kept(f, e[2], e[3], ix)
      [] e[1] = "*" -> Value(f, e[2], ix) * Value(f, e[3], ix)
      [] e[1] = "/" -> IDiv(Value(f, e[2], ix), Value(f, e[3], ix))
      [] e[1] = "-" -> Value(f, e[2], ix) - Value(f, e[3], ix)
Places(f) == LET d == Dims(f) IN [k \in 1..Prod(d) |-> Place(d, k - 1)]
Shows(f, e) == LET q == Places(f) IN [k \in 1..Len(q) |-> Value(f, e, q[k])]
(* lengths of vectors, given in hundredths, are judged by their squares *)
SizeOk(f, e, got) ==
    LET q == Places(f)
    IN  /\ Len(got) = Len(q)
        /\ \A k \in 1..Len(q) :
              LET a == Value(f, e[2], q[k]) IN LET b == Value(f, e[3], q[k]) IN LET c == Value(f, e[4], q[k])
              IN  Dist(got[k] * got[k], 10000 * (a * a + b * b + c * c)) <= got[k] + 1

(* what a run's coordinates are: as asked for, or if left to be found out, known from the kind of file *)
Mirror(kind, wish) == CASE wish = "force" -> TRUE [] wish = "auto_true" -> TRUE [] wish = "auto" -> kind = "fortbin" [] OTHER -> FALSE
=============================================================================

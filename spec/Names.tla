-------------------------------- MODULE Names --------------------------------
(* What a name given to a grid denotes.
   State g:  b      which field has which names (Bucket)
             f      f[i] = [A |-> what field i is, center |-> .., cached |-> is its data in memory]
             long   fields handed out are those kept (else copies of their shell)
             crd    coordinates are known
   Class K of the grid (does not change):
             get    getters:     << [n |-> name, x |-> expression] .. >>
             proc   processors:  << [n |-> name, op, c] .. >>
             all    processors of everything
             on     equations are allowed *)
EXTENDS Bucket, FieldAlg

None == <<"exc", "KeyError">>
IsExc(r) == r[1] = "exc"
Norm(A) == IF Len(A.v) = 1 THEN <<"num", A.v[1]>> ELSE <<"fld", A>>
Abs(a) == IF a < 0 THEN -a ELSE a
Op2(op, a, b) ==
    CASE op = "+" -> a + b
      [] op = "-" -> a - b
      [] op = "*" -> a * b
      [] op = "<" -> IF a < b THEN 1 ELSE 0
      [] op = ">" -> IF a > b THEN 1 ELSE 0
      [] op = "maximum" -> IF a >= b THEN a ELSE b
      [] op = "minimum" -> IF a <= b THEN a ELSE b
Op1(op, a) ==
    CASE op = "neg" -> -a
      [] op = "abs" -> Abs(a)
      [] op = "square" -> a * a
      [] op = "negative" -> -a
      [] op = "sqrt2" -> Abs(a)          \* written sqrt(x**2)
      [] op = "pow2" -> a * a            \* written x**2
Funs == {"abs", "square", "negative", "sqrt2", "maximum", "minimum", "max", "min", "sum"}
FoldOp(op, q) == CASE op = "max" -> MaxOf(q) [] op = "min" -> MinOf(q) [] op = "sum" -> SumSeq(q)

Apply2(op, l, r) ==
    IF l[1] = "num" /\ r[1] = "num" THEN <<"num", Op2(op, l[2], r[2])>>
    ELSE IF l[1] = "num" THEN Norm(Bin(LAMBDA x, y : Op2(op, y, x), r[2], Num(r[2], l[2])))
    ELSE IF r[1] = "num" THEN Norm(Bin(LAMBDA x, y : Op2(op, x, y), l[2], Num(l[2], r[2])))
    ELSE Norm(Bin(LAMBDA x, y : Op2(op, x, y), l[2], r[2]))
Apply1(op, l) == IF l[1] = "num" THEN <<"num", Op1(op, l[2])>> ELSE Norm(Un(LAMBDA x : Op1(op, x), l[2]))
Point(p, l) == IF IsExc(l) THEN l
               ELSE IF p.op = "mul" THEN Apply2("*", l, <<"num", p.c>>)
               ELSE IF p.op = "add" THEN Apply2("+", l, <<"num", p.c>>)
               ELSE Apply1("neg", l)
(* places a .. b-1 of the first axis *)
Part(A, slc) ==
    LET a == slc[1]
        b == slc[2]
        d == Full(A)
        r == [d EXCEPT ![1] = b - a]
    IN  [A EXCEPT !.ax[1].p = SubSeq(A.ax[1].p, a + 1, b), !.v = Build(r, LAMBDA ix : Get(A.v, d, [ix EXCEPT ![1] = @ + a]))]
Cut(l, slc) == IF slc = <<>> \/ IsExc(l) THEN l ELSE <<"fld", Part(l[2], slc)>>

Find(q, n) == IF \E i \in 1..Len(q) : q[i].n = n THEN CHOOSE i \in 1..Len(q) : q[i].n = n ELSE 0
RECURSIVE Vars(_)
Vars(x) == CASE x[1] = "num" -> <<>>
             [] x[1] = "var" -> <<x[2]>>
             [] x[1] = "bin" -> Vars(x[3]) \o Vars(x[4])
             [] x[1] = "un" -> Vars(x[3])
             [] x[1] = "call" -> Vars(x[3])
             [] x[1] = "call2" -> Vars(x[3]) \o Vars(x[4])
RECURSIVE KnownFuns(_)
KnownFuns(x) == CASE x[1] \in {"num", "var"} -> TRUE
                  [] x[1] = "bin" -> KnownFuns(x[3]) /\ KnownFuns(x[4])
                  [] x[1] = "un" -> KnownFuns(x[3])
                  [] x[1] = "call" -> x[2] \in Funs /\ KnownFuns(x[3])
                  [] x[1] = "call2" -> x[2] \in Funs /\ KnownFuns(x[3]) /\ KnownFuns(x[4])
(* R: what each name in x denotes *)
RECURSIVE Value(_, _)
Value(x, R) ==
    CASE x[1] = "num" -> <<"num", x[2]>>
      [] x[1] = "var" -> R[x[2]]
      [] x[1] = "bin" -> Apply2(x[2], Value(x[3], R), Value(x[4], R))
      [] x[1] = "un" -> Apply1(x[2], Value(x[3], R))
      [] x[1] = "call" -> LET l == Value(x[3], R)
                          IN  IF x[2] \in {"max", "min", "sum"}
                              THEN IF l[1] = "num" THEN l ELSE <<"num", FoldOp(x[2], l[2].v)>>
                              ELSE Apply1(x[2], l)
      [] x[1] = "call2" -> Apply2(x[2], Value(x[3], R), Value(x[4], R))

RECURSIVE ByName(_, _, _, _)
RECURSIVE ByEqn(_, _, _, _)
(* a field that is kept, else what the class knows how to get; then processed, then cut *)
ByName(g, K, n, slc) ==
    LET i == Find(K.get, n)
        base == IF HasHandle(g.b, n) THEN <<"fld", g.f[Owner(g.b, n)].A>>
                ELSE IF i # 0 THEN ByEqn(g, [K EXCEPT !.on = TRUE, !.all = <<>>], K.get[i].x, [all |-> K.all, slc |-> <<>>])
                ELSE None
        j == Find(K.proc, n)
        p == IF j = 0 THEN base ELSE Point(K.proc[j], base)
        q == IF K.all = <<>> THEN p ELSE Point(K.all[1], p)
    IN  Cut(q, slc)
(* an equation: names in it are looked up (and cut) first.  o.all: the processors of everything for those names *)
ByEqn(g, K, x, o) ==
    LET KK == [K EXCEPT !.all = o.all]
        vs == Vars(x)
        bad == {k \in 1..Len(vs) : IsExc(ByName(g, KK, vs[k], o.slc))}
        r == Value(x, [n \in Range(vs) |-> ByName(g, KK, n, o.slc)])
    IN  IF ~K.on THEN <<"exc", "RuntimeError">>
        ELSE IF bad # {} THEN ByName(g, KK, vs[CHOOSE k \in bad : \A m \in bad : k <= m], o.slc)
        ELSE IF ~KnownFuns(x) THEN <<"exc", "NameError">>
        ELSE IF K.all = <<>> THEN r ELSE Point(K.all[1], r)
Denotes(g, K, what, slc) == IF what.k = "name" THEN ByName(g, K, what.n, slc) ELSE ByEqn(g, K, what.x, [all |-> K.all, slc |-> slc])

(* the fields kept that are looked at on the way, themselves (not a copy) *)
RECURSIVE Seen(_, _, _)
Seen(g, K, n) ==
    IF HasHandle(g.b, n) THEN {Owner(g.b, n)}
    ELSE LET i == Find(K.get, n) IN IF i = 0 THEN {} ELSE UNION {Seen(g, K, Vars(K.get[i].x)[k]) : k \in 1..Len(Vars(K.get[i].x))}
SeenBy(g, K, what, force) ==
    IF what.k = "name"
    THEN (IF g.long \/ (force /\ HasHandle(g.b, what.n)) THEN Seen(g, K, what.n) ELSE {})
    ELSE IF g.long /\ K.on THEN UNION {Seen(g, K, Vars(what.x)[k]) : k \in 1..Len(Vars(what.x))} ELSE {}
Cache(g, S) == [g EXCEPT !.f = [i \in 1..Len(g.f) |-> IF i \in S THEN [g.f[i] EXCEPT !.cached = TRUE] ELSE g.f[i]]]
Kept(g) == {g.b.ent[i].it : i \in 1..Len(g.b.ent)}
Forget(g, S) == [g EXCEPT !.f = [i \in 1..Len(g.f) |-> IF i \in S THEN [g.f[i] EXCEPT !.cached = FALSE] ELSE g.f[i]]]
Cached(g) == {i \in Kept(g) : g.f[i].cached}

Add(g, n, i) == [g EXCEPT !.b = SetItem(g.b, <<n>>, i, TRUE, FALSE)]
Del(g, n) == [g EXCEPT !.b = RemoveHandle(g.b, n).b]
Names(g) == [i \in 1..Len(g.b.ent) |-> g.b.ent[i].hs[1]]
=============================================================================

--------------------------- MODULE FieldAlgTrace ---------------------------
(* independent events: one operation on fields each.  Values of results are scaled by e.sc where they may be
   fractions (so that they are whole numbers).  R: what the result must be *)
EXTENDS TraceBase, FieldAlg, Bitwise

B2I(b) == IF b THEN 1 ELSE 0
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
ApplyBin(op, a, b, sc) ==
    CASE op = "add" -> a + b
      [] op = "sub" -> a - b
      [] op = "mul" -> a * b
      [] op = "truediv" -> FDiv(a * sc, b)
      [] op = "floordiv" -> FDiv(a, b)
      [] op = "mod" -> a - b * FDiv(a, b)
      [] op = "pow" -> Pow(a, b)
      [] op = "and" -> a & b
      [] op = "or" -> a | b
      [] op = "xor" -> a ^^ b
      [] op = "lshift" -> a * Pow(2, b)
      [] op = "rshift" -> a \div Pow(2, b)
      [] op = "lt" -> B2I(a < b)
      [] op = "le" -> B2I(a <= b)
      [] op = "gt" -> B2I(a > b)
      [] op = "ge" -> B2I(a >= b)
      [] op = "eq" -> B2I(a = b)
      [] op = "ne" -> B2I(a # b)
      [] op = "maximum" -> IF a >= b THEN a ELSE b
      [] op = "minimum" -> IF a <= b THEN a ELSE b
      [] op = "land" -> B2I(a # 0 /\ b # 0)
      [] op = "lor" -> B2I(a # 0 \/ b # 0)
Other(A, b) == CASE b.k = "num" -> Num(A, b.x)
                 [] b.k = "last" -> LastAx(A, b.x)
                 [] b.k = "fld" -> b.f
ApplyUn(op, x, p) ==
    CASE op = "neg" -> -x
      [] op = "pos" -> x
      [] op = "abs" -> Abs(x)
      [] op = "invert" -> -x - 1
      [] op = "sign" -> Sgn(x)
      [] op = "square" -> x * x
      [] op = "same" -> x
      [] op = "zero" -> 0
      [] op = "isnonzero" -> B2I(x # 0)
      [] op = "clip" -> IF x < p[1] THEN p[1] ELSE IF x > p[2] THEN p[2] ELSE x
      [] op = "fill" -> p[1]
      [] op = "root" -> CHOOSE r \in 0..200 : r * r = x
ApplyFold(op, q) ==
    CASE op = "sum" -> SumSeq(q)
      [] op = "mean" -> SumSeq(q)
      [] op = "prod" -> MulSeq(q)
      [] op = "max" -> MaxOf(q)
      [] op = "min" -> MinOf(q)
      [] op = "ptp" -> MaxOf(q) - MinOf(q)
      [] op = "any" -> B2I(\E i \in 1..Len(q) : q[i] # 0)
      [] op = "all" -> B2I(\A i \in 1..Len(q) : q[i] # 0)
      [] op = "argmax" -> ArgMax(q)
      [] op = "argmin" -> ArgMin(q)
      [] op = "var" -> Len(q) * SumSeq([i \in 1..Len(q) |-> q[i] * q[i]]) - SumSeq(q) * SumSeq(q)
Set(q) == {q[i] : i \in 1..Len(q)}
(* an operation that turns each line along an axis into another line *)
Along(A, a, Op(_)) ==
    LET d == Full(A)
    IN  [A EXCEPT !.v = Build(d, LAMBDA ix : Op([k \in 1..d[a] |-> Get(A.v, d, [ix EXCEPT ![a] = k - 1])])[ix[a] + 1])]
ArgSorted(q) == [k \in 1..Len(q) |-> (CHOOSE i \in 1..Len(q) : Cardinality({j \in 1..Len(q) : q[j] < q[i] \/ (q[j] = q[i] /\ j < i)}) = k - 1) - 1]

Result(e) ==
    LET A == e.a IN
    CASE e.op = "bin" -> Bin(LAMBDA x, y : ApplyBin(e.f, x, y, e.sc), A, Other(A, e.b))
      [] e.op = "rbin" -> Bin(LAMBDA x, y : ApplyBin(e.f, y, x, e.sc), A, Other(A, e.b))
      [] e.op = "un" -> Un(LAMBDA x : ApplyUn(e.f, x, e.p), A)
      [] e.op = "red" -> Reduce(A, Set(e.axes), e.keep, LAMBDA q : ApplyFold(e.f, q))
      [] e.op = "cumsum" -> Running(A, e.axis, SumSeq)
      [] e.op = "cumprod" -> Running(A, e.axis, MulSeq)
      [] e.op = "argsort" -> Along(A, e.axis, ArgSorted)
      [] e.op = "trapz" -> Reduce(A, {e.axis}, FALSE, LAMBDA q : Trap2(q, A.ax[e.axis].p))
      [] e.op = "cumtrapz" -> Running(A, e.axis, LAMBDA q : Trap2(q, A.ax[e.axis].p))
      [] e.op = "comp" -> Comp(A, e.c)
      [] e.op = "join" -> Join(e.q)
      [] e.op = "perm" -> Perm(A, e.perm)
      [] e.op = "halve" -> [ax |-> e.nax, nc |-> 0, v |-> Halve(A)]
      [] e.op = "same" -> A
      [] e.op = "fill" -> Un(LAMBDA x : e.p[1], A)
      [] e.op = "compview" -> [ax |-> <<>>, nc |-> 0, v |-> Comp(A, e.c).v]
Factor(e) == CASE e.op \in {"bin", "rbin"} -> IF e.f = "truediv" THEN 1 ELSE e.sc
               [] e.op \in {"un", "comp", "join", "perm", "same", "fill", "compview"} -> e.sc
               [] OTHER -> 1
(* positions of an axis of length one that was folded are its own business *)
SameAx(g, x) == /\ Len(g) = Len(x)
                /\ \A i \in 1..Len(x) : g[i].n = x[i].n /\ Len(g[i].p) = Len(x[i].p) /\ (Len(x[i].p) > 1 => g[i].p = x[i].p)
JudgeFld(e, R, g) ==
    Chk("kind", g[1], "fld")
    \o (IF g[1] # "fld" THEN <<>>
        ELSE Chk("values", g[2].v, [k \in 1..Len(R.v) |-> R.v[k] * Factor(e)])
             \o Chk("components", g[2].nc, R.nc)
             \o (IF SameAx(g[2].ax, R.ax) THEN <<>> ELSE << <<"axes", R.ax>> >>)
             \o Chk("centering", g[2].center, e.center)
             \o Chk("time", g[2].time, e.time)
             \o Chk("layout", g[2].lay \in (IF R.nc = 0 THEN {"scalar", "flat", "interlaced"} ELSE IF e.lay = "any" THEN {"flat", "interlaced"} ELSE {e.lay}), TRUE))
Judge(init, e) ==
    LET R == Result(e)
        one == Len(R.v) = 1 /\ ~e.whole
    IN  (IF one THEN Chk("number", e.got, <<"num", R.v[1] * Factor(e)>>)
         ELSE IF R.ax = <<>> /\ e.got[1] = "fld" THEN Chk("numbers", e.got[2].v, [k \in 1..Len(R.v) |-> R.v[k] * Factor(e)])
        ELSE IF R.ax = <<>> THEN Chk("numbers", e.got, <<"arr", [k \in 1..Len(R.v) |-> R.v[k] * Factor(e)]>>)
         ELSE JudgeFld(e, R, e.got))
        \o ChkT("operands-unchanged", e.pure)
        \o (IF "contig" \in DOMAIN e THEN ChkT("contiguous", e.contig) ELSE <<>>)
        \o (IF "shares" \in DOMAIN e THEN ChkT("memory-shared-or-not", e.shares) ELSE <<>>)
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

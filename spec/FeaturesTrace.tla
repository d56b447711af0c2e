---------------------------- MODULE FeaturesTrace ----------------------------
EXTENDS TraceBase, Features
AsSet(q) == {q[k] : k \in 1..Len(q)}
JudgeNulls(e) ==
    LET want == Nulls(e.fs, e.axes, e.b2)
    IN  IF e.got[1] # "ok" THEN << <<"nulls", want>> >>
        ELSE Chk("nulls", AsSet(e.got[2]), want)
             \o ChkT("each once", Len(e.got[2]) = Cardinality(AsSet(e.got[2])))
             \o ChkT("points", \A k \in 1..Len(e.got[2]) : e.got[3][k] = [d \in 1..3 |-> e.axes[d][e.got[2][k][d] + 1]])
JudgeKind(e) ==
    LET want == Nulls(e.fs, e.axes, 0)
        k == Kind(e.m)
    IN  IF k = "O" THEN <<>>
        ELSE IF e.got[1] # "ok" THEN << <<"kind", k>> >>
        ELSE Chk("kind", [A |-> AsSet(e.got[2].A), B |-> AsSet(e.got[2].B), O |-> AsSet(e.got[2].O)],
                 [A |-> IF k = "A" THEN want ELSE {}, B |-> IF k = "B" THEN want ELSE {}, O |-> {}])
JudgeMiddles(cs, e) == IF e.got[1] # "ok" THEN << <<"middles", Cardinality(cs)>> >> ELSE ChkT("middles", MiddlesOk(cs, e.got[2], e.x, e.len))
JudgeClusters(e) ==
    LET pts == AsSet(e.pts)
        cs == IF e.multiple THEN Clusters(pts, e.n, e.pd, e.diag) ELSE {{<<p, <<0, 0>>>> : p \in pts}}
    IN  JudgeMiddles(cs, e)
JudgeMeet(e) ==
    LET a == [i \in 1..Len(e.a) |-> [j \in 1..Len(e.a[1]) |-> Masked(e.a[i][j], e.mask)]]
        m == Meet(a, e.x[1], e.x[2], e.val, 0, e.lo, e.hi)
        cs == Clusters(m.hits, <<Len(m.x), Len(m.y)>>, <<FALSE, FALSE>>, TRUE)
    IN  (IF e.got[1] # "ok" THEN << <<"middles", Cardinality(cs)>> >>
         ELSE ChkT("middles", MiddlesOk(cs, e.got[2], <<m.x, m.y>>, <<0, 0>>)))
        \o ChkT("field kept", e.kept)
JudgeFrame(e) ==
    IF e.got[1] # "ok" THEN << <<"frame", e.v>> >>
    ELSE LET r == Ranks(e.v)
             g == e.got[2]
             n == Unit(r[1])
             big == Unit(r[3])
             flat == [k \in 1..3 |-> IF k = r[1] THEN 0 ELSE e.basis[k]]      \* the wish without its part along the normal
             alone == flat = <<0, 0, 0>>
         IN  Chk("variances", g.evals, [k \in 1..3 |-> e.v[r[k]] * e.v[r[k]]])
             \o ChkT("directions", \A k \in 1..3 : g.evecs[k] \in {Unit(r[k]), Neg(Unit(r[k]))})
             \o ChkT("normal", g.lmn[3] \in {n, Neg(n)})
             \o ChkT("l", IF alone THEN g.lmn[1] \in {big, Neg(big)} ELSE g.lmn[1] = [k \in 1..3 |-> IF flat[k] > 0 THEN 1 ELSE IF flat[k] < 0 THEN -1 ELSE 0])
             \o Chk("m", g.lmn[2], Cross(g.lmn[3], g.lmn[1]))
Judge(init, e) ==
    CASE e.op = "nulls" -> JudgeNulls(e)
      [] e.op = "kind" -> JudgeKind(e)
      [] e.op = "jacobian" -> Chk("jacobian", e.got, <<"ok", e.m>>)
      [] e.op = "clusters" -> JudgeClusters(e)
      [] e.op = "meet" -> JudgeMeet(e)
      [] e.op = "colors" -> Chk("colors", e.got, <<"ok", [k \in 1..Len(e.t) |-> IF Color(e.t[k]) = <<>> THEN e.other ELSE Color(e.t[k])]>>)
      [] e.op = "frame" -> JudgeFrame(e)
      [] OTHER -> << <<"unknown", e.op>> >>
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

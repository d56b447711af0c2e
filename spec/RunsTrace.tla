------------------------------ MODULE RunsTrace ------------------------------
EXTENDS TraceBase, Runs
Step0(init, e) == LET f == init.steps[e.step]
                  IN  [fam |-> init.fam, axes |-> init.axes, order |-> init.order, at |-> init.at, flds |-> f.flds,
                       gse |-> Mirror(init.kind, init.wish), plane |-> init.plane]
JudgeAsk(f, e) ==
    LET m == Meaning(f, e.n)
    IN  IF m = No THEN IF e.got[1] = "exc" /\ e.got[2] = "KeyError" THEN <<>> ELSE << <<"no such", e.n>> >>
        ELSE IF e.got[1] # "ok" THEN << <<"asked", e.n>> >>
        ELSE LET g == e.got[2]
             IN  Chk("axes", g.axes, Positions(f))
                 \o Chk("center", g.at, f.at)
                 \o Chk("components", g.nc, IF Len(m) = 1 THEN 0 ELSE Len(m))
                 \o (IF Len(g.v) # Len(m) THEN << <<"values", Len(m)>> >>
                     ELSE IF m[1][1] = "size" THEN IF SizeOk(f, m[1], g.size) THEN <<>> ELSE << <<"size", m>> >>
                     ELSE Chk("values", g.v, [c \in 1..Len(m) |-> Shows(f, m[c])]))
                 \o (IF e.named THEN Chk("name", g.n, e.n) ELSE <<>>)
Judge(init, e) ==
    CASE e.op = "ask" -> JudgeAsk(Step0(init, e), e)
      [] e.op = "steps" -> Chk("times", e.got, [k \in 1..Len(init.steps) |-> init.steps[k].t])
      [] e.op = "names" -> ChkT("names", \A k \in 1..Len(init.steps) : e.got[k] = [j \in 1..Len(init.steps[k].flds) |-> init.steps[k].flds[j].n])
      [] e.op = "broken" -> << <<"broken", e.got>> >>
      [] OTHER -> << <<"unknown", e.op>> >>
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

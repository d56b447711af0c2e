----------------------------- MODULE StoreTrace -----------------------------
EXTENDS TraceBase, Store
Out(d, bad) == [st |-> d, bad |-> bad]
At(d, p) == IF p \in DOMAIN d THEN d[p] ELSE NoFile
Put(d, p, c) == [x \in DOMAIN d \cup {p} |-> IF x = p THEN c ELSE d[x]]
SameAx(g, x) == Len(g) = Len(x) /\ \A i \in 1..Len(x) : g[i].n = x[i].n /\ g[i].p = x[i].p
Same(got, A, f, time) ==
    IF got[1] = "num" THEN Chk("value", <<got[2]>>, A.v)
    ELSE IF got[1] # "fld" THEN << <<"loads", A>> >>
    ELSE Chk("values", got[2].v, A.v) \o Chk("components", got[2].nc, A.nc)
         \o (IF SameAx(got[2].ax, A.ax) THEN <<>> ELSE << <<"axes", A.ax>> >>)
         \o Chk("centering", got[2].center, f.center)
         \o Chk("time", got[2].time, time)
SetOf(q) == {q[i] : i \in 1..Len(q)}
SStep(d, e) ==
    CASE e.op = "save" ->
           LET ok == Can(e.fmt, e.flds)
           IN  Out(IF ok THEN Put(d, e.p, Written(e.fmt, e.flds, e.time)) ELSE d,
                   (IF ok THEN Chk("saves", e.got, <<"ok">>) ELSE Chk("refused", e.got[1], "exc")) \o ChkT("inputs-unchanged", e.pure))
      [] e.op = "conv" ->
           LET c == At(d, e.p)
           IN  Out(IF c = NoFile THEN d ELSE Put(d, e.q, Written(e.fmt, c.flds, c.time)),
                   IF c = NoFile THEN Chk("refused", e.got[1], "exc") ELSE Chk("saves", e.got, <<"ok">>))
      [] e.op = "names" ->
           LET c == At(d, e.p)
           IN  Out(d, IF c = NoFile THEN Chk("no-file", e.got[1], "exc")
                      ELSE ChkT("loads", e.got[1] = "ok") \o (IF e.got[1] = "ok" THEN Chk("names", SetOf(e.ns), Names(c)) \o Chk("number", Len(e.ns), Len(c.flds)) ELSE <<>>))
      [] e.op = "get" ->
           LET c == At(d, e.p)
               i == IndexOf(c.flds, e.n)
           IN  Out(d, IF i = 0 THEN Chk("not-there", SubSeq(e.got, 1, 2), <<"exc", "KeyError">>)
                      ELSE LET f == c.flds[i] IN Same(e.got, IF e.part THEN Part(f.A, e.lo, e.hi, e.stp) ELSE f.A, f, c.time)
                           \o (IF e.got[1] = "fld" THEN Chk("data-type", e.dt, f.dt) ELSE <<>>))
EInit(init) == [x \in {} |-> NoFile]
Init == TInit(EInit)
Next == TNext(SStep)
Spec == Init /\ [][Next]_vars
=============================================================================

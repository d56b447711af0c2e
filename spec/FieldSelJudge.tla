--------------------------- MODULE FieldSelJudge ---------------------------
(* event: f (the field), items, how ("slice", "reduce", "keep"), got:
     [tag |-> "fld", axes, nc, cc, data, ncomp, cell, gone]   a field: gone = <<name, location>> of recorded dropped axes
     [tag |-> "num", v]                          a number
     [tag |-> "exc", v]                          an exception *)
EXTENDS TraceBase, FieldSel

Plain(e) == ~e.arr /\ (Unit(e.idx) \/ UnitBack(e.idx))     \* contiguous, and not picked one by one

SelJudge(f, items, how, got) ==
    LET r == Select(f, items, how)
    IN  IF ~r.ok THEN ChkT("selection-refused", got.tag = "exc")
        ELSE IF r.empty THEN ChkT("empty-selection", got.tag = "exc" \/ (got.tag = "fld" /\ got.data = <<>>))
        ELSE IF got.tag = "exc" /\ ~r.sure THEN <<>>
        ELSE IF got.tag = "exc" THEN << <<"selection-accepted", r.data>> >>
        ELSE IF got.tag = "num" THEN Chk("value", <<got.v>>, r.data)
        ELSE LET n == Len(r.axes)
                 Ax(i) == f.axes[AxOf(f, r.axes[i].name)]
             IN  Chk("axes", got.axes, NameOf(r.axes))
                 \o Chk("values", got.data, r.data)
                 \o Chk("components", got.ncomp, r.ncomp)
                 \o Chk("centering", got.cell, f.cell)
                 \o (IF got.axes # NameOf(r.axes) THEN <<>>
                     ELSE ChkT("lengths", \A i \in 1..n : Len(got.cc[i]) = Len(r.axes[i].idx) \/ ~f.cell)
                       \o Chk("coordinates-of-values",
                              [i \in 1..n |-> IF r.axes[i].new THEN <<>> ELSE IF f.cell THEN got.cc[i] ELSE got.nc[i]],
                              [i \in 1..n |-> IF r.axes[i].new THEN <<>>
                                              ELSE IF f.cell THEN Take(Ax(i).cc, r.axes[i].idx) ELSE Take(Ax(i).nc, r.axes[i].idx)])
                       \o Chk("edges-of-selected-cells",
                              [i \in 1..n |-> IF ~f.cell \/ r.axes[i].new \/ ~Plain(r.axes[i]) THEN <<>>
                                              ELSE got.nc[i]],
                              [i \in 1..n |-> IF ~f.cell \/ r.axes[i].new \/ ~Plain(r.axes[i]) THEN <<>>
                                              ELSE IF got.nc[i] \in EdgesOK(Ax(i).nc, r.axes[i].idx) THEN got.nc[i]
                                              ELSE Edges(Ax(i).nc, r.axes[i].idx)]))
                 \o Chk("dropped-axes", got.gone,
                        [i \in 1..Len(r.gone) |-> <<r.gone[i].name,
                            Crd(f, AxOf(f, r.gone[i].name))[r.gone[i].idx[1] + 1]>>])
=============================================================================

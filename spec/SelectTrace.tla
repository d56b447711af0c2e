---------------------------- MODULE SelectTrace ----------------------------
(* one event = one selection on one axis: coordinates, abstract selection, mode, and what the library selected:
   <<"ok", positions, dropped>> or <<"exc", type>> *)
EXTENDS TraceBase, Select

Judge(init, e) ==
    LET A == Answers(e.c, e.sel, e.mode # "noend", e.mode = "interior")
    IN  IF A = {} THEN ChkT("selection-refused", e.got[1] = "exc")
        ELSE IF e.got[1] # "ok"
             \* the library has no empty fields, and no empty lists of positions
             THEN IF <<>> \in A /\ (e.route = "fld" \/ e.sel[1] = "m") THEN <<>> ELSE << <<"selection-accepted", A>> >>
        ELSE (IF e.got[2] \in A THEN <<>> ELSE << <<"selected-elements", A>> >>)
             \o Chk("axis-dropped", e.got[3], Drops(e.sel))
             \o (IF Len(e.got) > 3      \* coordinates of the result
                 THEN Chk("coordinates-of-the-result", e.got[4], [i \in 1..Len(e.got[2]) |-> e.c[e.got[2][i] + 1]])
                 ELSE <<>>)
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

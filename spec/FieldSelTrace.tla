--------------------------- MODULE FieldSelTrace ---------------------------
EXTENDS FieldSelJudge
Judge(init, e) == SelJudge(e.f, e.items, e.how, e.got)
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

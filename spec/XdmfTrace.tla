----------------------------- MODULE XdmfTrace -----------------------------
EXTENDS TraceBase, Xdmf
Judge(init, e) ==
    LET exp == Read(e.doc, e.keys)
    IN  CASE e.op = "read" -> Chk("tree", e.got, <<"ok", exp>>)
          [] e.op = "count" -> Chk("count", e.got, Len(exp))
          [] OTHER -> << <<"unknown", e.op>> >>
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

--------------------------- MODULE TemporalTrace ---------------------------
EXTENDS TraceBase, Temporal
(* every event has obs = [top, tds: <<[name, kids: <<<<t, id>>>>, act]>>] after the call *)
Proj(m) == [top |-> m.top,
            tds |-> [i \in 1..Len(m.tds) |->
                      [name |-> m.tds[i].name, act |-> m.tds[i].act,
                       kids |-> [j \in 1..Len(m.tds[i].kids) |-> <<m.tds[i].kids[j].t, m.tds[i].kids[j].id>>]]]]

(* the child a call that goes down the tree ends at *)
Find(m, n) == IF n = "" THEN Idx(m, m.top) ELSE Idx(m, n)
Down(m, e) ==
    LET i == Find(m, e.td)
    IN  IF i = 0 THEN {}
        ELSE IF e.sel[1] = "none" THEN (IF m.tds[i].act = 0 THEN {} ELSE {m.tds[i].act})
        ELSE IF m.tds[i].kids = <<>> THEN {} ELSE One(m.tds[i].kids, e.sel)

(* a dataset of datasets asks its first child for times *)
TIdx(m, e) == IF e.td = "" THEN IF m.tds = <<>> THEN 0 ELSE 1 ELSE Idx(m, e.td)

Multi(got, A, one) ==
    IF A = {} THEN ChkT("refused", got[1] = "exc")
    ELSE IF got[1] # "ok" THEN << <<"accepted", A>> >>
    ELSE IF got[2] \in A THEN <<>> ELSE << <<one, A>> >>

MStep(m, e) ==
    LET Out(g, bad) == [st |-> g, bad |-> bad \o Chk("datasets-and-children", e.obs, Proj(g))]
    IN
    CASE e.op = "newtd" -> Out(NewTd(m, e.td, e.sa), Chk("outcome", e.got, <<"ok">>))
      [] e.op = "add" -> Out(AddKid(m, Idx(m, e.td), e.t, e.id, e.sa), Chk("outcome", e.got, <<"ok">>))
      [] e.op = "clear" -> Out([m EXCEPT !.tds[Idx(m, e.td)].kids = <<>>, !.tds[Idx(m, e.td)].act = 0], Chk("outcome", e.got, <<"ok">>))
      [] e.op = "top" -> Out([m EXCEPT !.top = e.td], Chk("outcome", e.got, <<"ok">>))
      [] e.op = "activate" ->
            LET i == Idx(m, e.td)
                A == One(m.tds[i].kids, e.sel)
                a == e.obs.tds[i].act
            IN  IF A = {} THEN Out(m, ChkT("refused", e.got[1] = "exc"))
                ELSE Out(SetAct(m, i, IF a \in A THEN a ELSE CHOOSE x \in A : TRUE), Chk("accepted", e.got, <<"ok">>))
      [] e.op = "activateall" ->
            LET n == Len(m.tds)
                A == [i \in 1..n |-> One(m.tds[i].kids, e.sel)]
                g == [m EXCEPT !.tds = [i \in 1..n |-> [m.tds[i] EXCEPT !.act =
                        IF e.obs.tds[i].act \in A[i] THEN e.obs.tds[i].act ELSE CHOOSE x \in A[i] : TRUE]]]
            IN  Out(g, Chk("accepted", e.got, <<"ok">>))
      [] e.op \in {"grid", "field", "fields"} -> Out(m, Multi(e.got, Down(m, e), "grid-of-the-time"))
      [] e.op = "iter" ->
            Out(m, Multi(e.got, IF TIdx(m, e) = 0 THEN {} ELSE Sel(m.tds[TIdx(m, e)].kids, e.sel, e.mode # "noend", e.mode = "interior"), "times-selected"))
      [] e.op = "first" ->
            LET B == Sel(m.tds[TIdx(m, e)].kids, e.sel, TRUE, FALSE)
            IN  Out(m, Multi(e.got, {b[1] : b \in {x \in B : x # <<>>}}, "first-time"))
      [] e.op = "count" ->
            LET B == Sel(m.tds[TIdx(m, e)].kids, e.sel, TRUE, FALSE)
            IN  Out(m, Multi(e.got, {Len(b) : b \in B}, "number-of-times"))
      [] e.op = "range" ->
            Out(m, Chk("range-of-times", e.got, <<"ok", Range(Times(m.tds[TIdx(m, e)].kids), e.sel)>>))
      [] e.op = "has" ->
            LET kids == m.tds[Idx(m, e.td)].kids
            IN  Out(m, Chk("contains", e.got, <<"ok", IF e.sel[1] = "i" THEN e.sel[2] < Len(kids)
                                                      ELSE e.sel[2] >= kids[1].t /\ e.sel[2] <= kids[Len(kids)].t>>))

TIn(init) == [tds |-> <<>>, top |-> ""]
Init == TInit(TIn)
Next == TNext(MStep)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE Temporal ------------------------------
(* A dataset of temporal datasets.  st = [tds, top]: tds the temporal datasets in order of insertion,
   each [name, kids, act]; kids = <<[t, id]>> ordered by time (insertion order where times are equal), act the id of the
   active child (0: none).  top = name of the active temporal dataset ("": none).  Times are integers. *)
EXTENDS Select

Times(kids) == [i \in 1..Len(kids) |-> kids[i].t]
Insert(kids, k) ==
    LET n == Cardinality({i \in 1..Len(kids) : kids[i].t <= k.t})
    IN  SubSeq(kids, 1, n) \o <<k>> \o SubSeq(kids, n + 1, Len(kids))
IdsOf(kids, pos) == [i \in 1..Len(pos) |-> kids[pos[i] + 1].id]

(* which children a time selection may mean: a set of sequences of ids *)
Sel(kids, sel, endpoint, interior) ==
    {IdsOf(kids, a) : a \in Answers(Times(kids), sel, endpoint, interior)}
One(kids, sel) == {a[1] : a \in Sel(kids, sel, TRUE, FALSE)}

Idx(st, n) == IF \E i \in 1..Len(st.tds) : st.tds[i].name = n
              THEN CHOOSE i \in 1..Len(st.tds) : st.tds[i].name = n ELSE 0
NewTd(st, n, sa) == [tds |-> Append(st.tds, [name |-> n, kids |-> <<>>, act |-> 0]), top |-> IF sa THEN n ELSE st.top]
AddKid(st, i, t, id, sa) ==
    [st EXCEPT !.tds[i].kids = Insert(@, [t |-> t, id |-> id]), !.tds[i].act = IF sa THEN id ELSE @]
SetAct(st, i, id) == [st EXCEPT !.tds[i].act = id]

(* end values of a time selection *)
EndVal(c, e, step, first) ==
    CASE e[1] = "v" -> e[2]
      [] e[1] = "n" -> IF (step > 0) = first THEN c[1] ELSE c[Len(c)]
      [] e[1] = "i" -> IF InRange(e[2], Len(c)) THEN c[Pos(e[2], Len(c)) + 1] ELSE -999
Range(c, sel) ==
    CASE sel[1] = "all" -> <<c[1], c[Len(c)]>>
      [] sel[1] = "i" -> <<c[Pos(sel[2], Len(c)) + 1], c[Pos(sel[2], Len(c)) + 1]>>
      [] sel[1] = "v" -> <<sel[2], sel[2]>>
      [] sel[1] = "s" -> <<EndVal(c, sel[2], sel[4], TRUE), EndVal(c, sel[3], sel[4], FALSE)>>

Sorted(kids) == \A i, j \in 1..Len(kids) : i < j => kids[i].t <= kids[j].t
OneEach(kids) == \A i, j \in 1..Len(kids) : i # j => kids[i].id # kids[j].id
=============================================================================

------------------------------ MODULE InfoTree ------------------------------
(* Nodes (files, datasets, grids, fields) with information of their own and a list of parents; what is asked of a node
   is answered by the nearest node that knows, going up level by level, parents in the order they were given.
   t = [par: node -> sequence of nodes, info: node -> (key -> value)]; an unset key has the value NO *)
EXTENDS Integers, Sequences, FiniteSets
NO == -999999

Elem(x, q) == \E i \in 1..Len(q) : q[i] = x
RECURSIVE Fresh(_, _)
(* first occurrences of what has not been seen *)
Fresh(q, seen) ==
    IF q = <<>> THEN <<>>
    ELSE IF Head(q) \in seen THEN Fresh(Tail(q), seen) ELSE <<Head(q)>> \o Fresh(Tail(q), seen \cup {Head(q)})
RECURSIVE Concat(_, _)
Concat(par, q) == IF q = <<>> THEN <<>> ELSE par[Head(q)] \o Concat(par, Tail(q))
RECURSIVE Up(_, _, _, _)
Up(par, level, seen, acc) ==
    LET f == Fresh(level, seen)
    IN  IF f = <<>> THEN acc ELSE Up(par, Concat(par, f), seen \cup {f[i] : i \in 1..Len(f)}, acc \o f)
Order(t, n) == Up(t.par, <<n>>, {}, <<>>)

Owner(t, n, k) ==
    LET o == Order(t, n)
        S == {i \in 1..Len(o) : t.info[o[i]][k] # NO}
    IN  IF S = {} THEN 0 ELSE o[CHOOSE i \in S : \A j \in S : i <= j]
Find(t, n, k) == LET w == Owner(t, n, k) IN IF w = 0 THEN NO ELSE t.info[w][k]
Set(t, n, k, v) == [t EXCEPT !.info[n][k] = v]
Update(t, n, k, v, fallback) ==
    LET w == Owner(t, n, k) IN IF w # 0 THEN Set(t, w, k, v) ELSE IF fallback THEN Set(t, n, k, v) ELSE t
Link(t, n, p) == IF Elem(p, t.par[n]) THEN t ELSE [t EXCEPT !.par[n] = Append(@, p)]
Unlink(t, n, p) == [t EXCEPT !.par[n] = SelectSeq(@, LAMBDA x : x # p)]
Keys(t, n) == {k \in DOMAIN t.info[n] : Find(t, n, k) # NO}

(* setting the time of a node: seconds or a span as they are, a date relative to the basetime the node can see *)
SetTime(t, n, kind, v) ==
    IF kind # "date" THEN Set(t, n, "time", v)
    ELSE IF Find(t, n, "basetime") = NO THEN t ELSE Set(t, n, "time", v - Find(t, n, "basetime"))
=============================================================================

--------------------------- MODULE InfoTreeTrace ---------------------------
EXTENDS TraceBase, InfoTree
(* init: n (number of nodes), keys.  e.g. events: [op, n, k, v, ..., got, own: every node's own information, afterwards] *)
Val(x) == IF x = NO THEN <<"none">> ELSE <<"v", x>>
Own(t, n, ks) == [i \in 1..Len(ks) |-> t.info[n][ks[i]]]
Attr(t, n) ==      \* -1 stands for NotImplemented, which is no answer
    LET o == Order(t, n)
        S == {i \in 1..Len(o) : t.info[o[i]]["attr"] \notin {NO, -1}}
    IN  IF S = {} THEN NO ELSE t.info[o[CHOOSE i \in S : \A j \in S : i <= j]]["attr"]

IStep(s0, e) ==
    LET t == s0.t
        ks == s0.ks
        Out(g, bad) == [st |-> [s0 EXCEPT !.t = g],
                        bad |-> bad \o Chk("own-information", e.own, [n \in 1..Len(e.own) |-> Own(g, n, ks)])
                                    \o Chk("parents", e.par, [n \in 1..Len(e.par) |-> g.par[n]])]
        tm == Find(t, e.n, "time")
        bt == Find(t, e.n, "basetime")
        Or(v) == IF v = NO THEN <<"exc">> ELSE <<"v", v>>
    IN
    CASE e.op = "link" -> Out(Link(t, e.n, e.p), Chk("outcome", e.got, <<"ok">>))
      [] e.op = "unlink" -> Out(Unlink(t, e.n, e.p), Chk("outcome", e.got, <<"ok">>))
      [] e.op = "set" -> Out(Set(t, e.n, e.k, e.v), Chk("outcome", e.got, <<"ok">>))
      [] e.op = "update" -> Out(Update(t, e.n, e.k, e.v, e.fb),
              Chk("outcome", e.got, IF e.fb \/ Owner(t, e.n, e.k) # 0 THEN <<"ok">> ELSE <<"exc">>))
      [] e.op = "settime" -> Out(SetTime(t, e.n, e.kind, e.v),
              Chk("outcome", e.got, IF e.kind = "date" /\ bt = NO THEN <<"exc">> ELSE <<"ok">>))
      [] e.op = "derive" ->      \* e.d is made from e.n: it asks e.n what it does not know, and was made at e.n's time
           Out([t EXCEPT !.par[e.d] = <<e.n>>, !.info[e.d]["time"] = tm], Chk("outcome", e.got, <<"ok">>))
      [] e.op = "find" -> Out(t, Chk("nearest-information", e.got,
              IF Find(t, e.n, e.k) # NO THEN <<"v", Find(t, e.n, e.k)>> ELSE IF e.def = NO THEN <<"exc">> ELSE <<"v", e.def>>))
      [] e.op = "owner" -> Out(t, Chk("owner-of-information", e.got, IF Owner(t, e.n, e.k) = 0 THEN <<"exc">> ELSE <<"v", Owner(t, e.n, e.k)>>))
      [] e.op = "get" -> Out(t, Chk("information-of-its-own", e.got,
              IF t.info[e.n][e.k] # NO THEN <<"v", t.info[e.n][e.k]>> ELSE IF e.def = NO THEN <<"exc">> ELSE <<"v", e.def>>))
      [] e.op = "has" -> Out(t, Chk("has-information", e.got, <<"v", t.info[e.n][e.k] # NO>>))
      [] e.op = "all" -> Out(t, Chk("all-information", e.got, <<"v", [i \in 1..Len(ks) |-> IF ks[i] = "attr" THEN NO ELSE Find(t, e.n, ks[i])]>>))
      [] e.op = "attr" -> Out(t, Chk("nearest-attribute", e.got,
              IF Attr(t, e.n) # NO THEN <<"v", Attr(t, e.n)>> ELSE IF e.def = NO THEN <<"exc">> ELSE <<"v", e.def>>))
      [] e.op = "time" -> Out(t, Chk("time", e.got, Val(tm)))
      [] e.op = "basetime" -> Out(t, Chk("basetime", e.got, Or(bt)))
      [] e.op = "span" -> Out(t, Chk("time-as-span", e.got, Or(tm)))
      [] e.op = "date" -> Out(t, Chk("time-as-date", e.got, IF tm = NO \/ bt = NO THEN <<"exc">> ELSE <<"v", bt + tm>>))
      [] e.op = "todate" -> Out(t, Chk("date-of-a-time", e.got, IF bt = NO THEN <<"exc">> ELSE <<"v", bt + e.v>>))
      [] e.op = "fmt" -> Out(t, Chk("time-as-text", e.got, IF tm = NO THEN <<"none">> ELSE <<"v", tm>>))

TIn(init) == [ks |-> init.keys,
              t |-> [par |-> [n \in 1..init.n |-> <<>>],
                     info |-> [n \in 1..init.n |-> [k \in {init.keys[i] : i \in 1..Len(init.keys)} |-> NO]]]]
Init == TInit(TIn)
Next == TNext(IStep)
Spec == Init /\ [][Next]_vars
=============================================================================

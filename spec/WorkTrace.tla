----------------------------- MODULE WorkTrace -----------------------------
(* sessions: events about chunks are independent of each other; those of a map follow its schedule *)
EXTENDS TraceBase, Work
Init0(init) == [run |-> {}, fin |-> {}, n |-> 0, w |-> 0]
Set(q) == {q[i] : i \in 1..Len(q)}
Step(S, e) ==
    LET k == NChunks(e.n, e.k, e.size) IN
    CASE e.op = "slices" -> [st |-> S, bad |-> Chk("slices", e.got, <<"ok", Slices(e.n, k)>>)]
      [] e.op = "list" -> [st |-> S, bad |-> Chk("chunks", e.got, <<"ok", [i \in 1..k |-> Range(Slices(e.n, k)[i][1], Slices(e.n, k)[i][2])]>>)]
      [] e.op = "sizes" -> [st |-> S, bad |-> Chk("sizes", e.got, <<"ok", Sizes(e.n, k)>>)]
      [] e.op = "inter" -> [st |-> S, bad |-> Chk("staggered", e.got, <<"ok", Inter(e.n, k)>>)]
      [] e.op = "map" -> (* a whole map at once: results in the order of the arguments *)
            [st |-> S, bad |-> Chk("results-in-order", e.got, <<"ok", [i \in 1..e.n |-> 10 * e.args[i] + e.kw]>>)]
      [] e.op = "where" -> [st |-> S, bad |-> ChkT("own-processes", IF e.own THEN e.here = 0 ELSE e.here = e.n)]
      [] e.op = "fail" -> (* some argument raises: so does the map, with that error *)
            [st |-> S, bad |-> ChkT("errors-reach-the-caller", e.got[1] = "exc" /\ e.got[2] \in Set(e.errs))]
      [] e.op = "go" ->
            LET t == Begin([run |-> {}, fin |-> {}], e.w, e.n)
            IN  [st |-> [run |-> t.run, fin |-> t.fin, n |-> e.n, w |-> e.w], bad |-> Chk("running", Set(e.running), t.run)]
      [] e.op = "finish" ->
            LET t == Begin(Finish([run |-> S.run, fin |-> S.fin], e.i), S.w, S.n)
            IN  [st |-> [S EXCEPT !.run = t.run, !.fin = t.fin], bad |-> Chk("running", Set(e.running), t.run)]
      [] e.op = "end" -> [st |-> S, bad |-> Chk("results-in-order", e.got, <<"ok", [i \in 1..S.n |-> 10 * e.args[i]]>>)]
      [] OTHER -> [st |-> S, bad |-> << <<"unknown-event", e.op>> >>]
Init == TInit(Init0)
Next == TNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================

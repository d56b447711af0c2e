-------------------------- MODULE FieldStateTrace --------------------------
EXTENDS TraceBase, FieldState
(* init: lazy, cp, tr, lay, slay, heap.  every event: got, loaded (is every field loaded?), reads, lays *)
FStep(s0, e) ==
    LET Out(g, exp) ==
            [st |-> g,
             bad |-> Chk("outcome", e.got, exp)
                     \o Chk("loaded", e.loaded, [i \in 1..Len(g.f) |-> Loaded(g, i)])
                     \o Chk("number-of-reads", e.reads, g.reads)
                     \o Chk("layout", e.lays, [i \in 1..Len(g.f) |-> Lay(g.f[i])])]
        Made(g) == Out(g, IF Len(g.f) > Len(s0.f) THEN <<"new">> ELSE <<"same">>)
    IN
    CASE e.op = "bump" -> Out(Bump(s0), <<"ok">>)
      [] e.op = "look" -> LET t == Load(s0, e.i) IN Out(t, <<"v", t.heap[t.f[e.i].cache]>>)
      [] e.op = "ask" -> Out(s0, <<"ok">>)        \* shape, size, coordinates, ... never read
      [] e.op = "clear" -> Out(Clear(s0, e.i), <<"ok">>)
      [] e.op = "write" -> Out(Write(s0, e.i, e.c), <<"ok">>)
      [] e.op = "forget" -> Out(Forget(s0, e.i), <<"ok">>)
      [] e.op = "assign" -> Out(Assign(s0, e.i, e.c, e.lay), <<"ok">>)
      [] e.op = "setlay" -> Out(SetLay(s0, e.i, e.lay), <<"ok">>)
      [] e.op = "shell" -> Made(Shell(s0, e.i, e.force))
      [] e.op = "recenter" -> Made(IF e.same THEN s0 ELSE Recenter(s0, e.i))
      [] e.op = "expand" -> Made(IF e.same THEN s0 ELSE Expand(s0, e.i))
      [] e.op = "rewrap" -> Made(Rewrap(s0, e.i))
TIn(init) == [v |-> 1, reads |-> 0, nt |-> 1, heap |-> IF init.lazy THEN <<>> ELSE <<50>>,
              f |-> <<[src |-> IF init.lazy THEN 0 ELSE 1, cache |-> 0, par |-> 0, cp |-> init.cp, tr |-> init.tr, tok |-> 0,
                       lay |-> init.lay, slay |-> init.slay]>>]
Init == TInit(TIn)
Next == TNext(FStep)
Spec == Init /\ [][Next]_vars
=============================================================================

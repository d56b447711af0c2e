---------------------------- MODULE BucketTrace ----------------------------
EXTENDS TraceBase, Bucket

(* every operation's event carries obs, the full projection of the real container afterwards *)
Obs(b) == [items |-> [i \in 1..Len(b.ent) |-> <<b.ent[i].it, b.ent[i].hs>>],
           n |-> Len(b.ent)]
ObsBad(b, e) ==
    Chk("items-and-handles-in-insertion-order", e.obs.items, Obs(b).items)
    \o Chk("length", e.obs.n, Obs(b).n)
    \o Chk("values", e.obs.values, [i \in 1..Len(b.ent) |-> b.ent[i].it])
    \o Chk("primary-handles", e.obs.prim, [i \in 1..Len(b.ent) |-> b.ent[i].hs[1]])
    \o Chk("handle-lookup", e.obs.look,
           [i \in 1..Len(e.obs.hs) |-> IF HasHandle(b, e.obs.hs[i]) THEN Owner(b, e.obs.hs[i]) ELSE "-"])
    \o Chk("contains", e.obs.cont,
           [i \in 1..Len(e.obs.hs) |-> HasHandle(b, e.obs.hs[i])])
    \o Chk("contains-item", e.obs.icont,
           [i \in 1..Len(e.obs.its) |-> HasItem(b, e.obs.its[i])])

Res(e, ok) == Chk("outcome", e.res, IF ok THEN "ok" ELSE "missing")

BStep(b, e) ==
    CASE e.op = "set" ->
            LET n == SetItem(b, e.hs, e.it, e.idx, e.ar)
            IN  [st |-> n, bad |-> Res(e, TRUE) \o ObsBad(n, e)]
      [] e.op = "remitem" ->
            LET r == RemoveItem(b, e.it) IN [st |-> r.b, bad |-> Res(e, r.ok) \o ObsBad(r.b, e)]
      [] e.op = "remhandle" ->
            LET r == RemoveHandle(b, e.h) IN [st |-> r.b, bad |-> Res(e, r.ok) \o ObsBad(r.b, e)]
      [] e.op = "remref" ->
            LET r == RemoveRef(b, e.it, e.k) IN [st |-> r.b, bad |-> Res(e, r.ok) \o ObsBad(r.b, e)]
      [] e.op = "remrefh" ->      \* release through a handle
            LET r == IF HasHandle(b, e.h) THEN RemoveRef(b, Owner(b, e.h), e.k) ELSE [ok |-> FALSE, b |-> b]
            IN  [st |-> r.b, bad |-> Res(e, r.ok) \o ObsBad(r.b, e)]
      [] e.op = "clear" ->
            LET n == Clear(b) IN [st |-> n, bad |-> Res(e, TRUE) \o ObsBad(n, e)]

BInit(init) == Empty
Init == TInit(BInit)
Next == TNext(BStep)
Spec == Init /\ [][Next]_vars
=============================================================================

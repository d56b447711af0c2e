----------------------------- MODULE NamesTrace -----------------------------
EXTENDS TraceBase, Names
Out(g, bad) == [st |-> g, bad |-> bad]
SameAx(g, x) == Len(g) = Len(x) /\ \A i \in 1..Len(x) : g[i].n = x[i].n /\ g[i].p = x[i].p
Same(got, exp, cen) ==
    IF exp[1] = "fld" /\ Len(exp[2].v) = 1 /\ got[1] = "num" THEN Chk("value", got[2], exp[2].v[1])
    ELSE IF exp[1] # "fld" \/ got[1] # "fld"
         THEN Chk("denotes", IF exp[1] = "exc" THEN SubSeq(got, 1, 2) ELSE got, exp)
    ELSE Chk("values", got[2].v, exp[2].v) \o Chk("components", got[2].nc, exp[2].nc)
         \o (IF SameAx(got[2].ax, exp[2].ax) THEN <<>> ELSE << <<"axes", exp[2].ax>> >>)
         \o Chk("centering", got[2].center, cen)
SetOf(q) == {q[i] : i \in 1..Len(q)}
After(g, e) == Chk("in-memory", SetOf(e.loaded), Cached(g))
               \o Chk("own-names", e.own, [i \in 1..Len(g.f) |-> g.f[i].name])
Ok == <<"ok">>
(* a grid made without coordinates takes those of its fields when first asked for some, also by a getter or an
   equation that looks for a field that is not there *)
Knows(g) == g.crd = "yes" \/ g.b.ent # <<>>
(* one that fails may have read some of what it needs *)
Read(g, K, w, force, r, e) ==
    LET S == SeenBy(g, K, w, force)
    IN  IF IsExc(r) /\ w.k = "eqn" THEN Cache(g, S \cap SetOf(e.loaded)) ELSE Cache(g, IF IsExc(r) THEN {} ELSE S)
Nope == <<"exc", "KeyError">>
NStep(S, e) ==
    LET g == S.g
        K == S.K
        w == e.what
    IN
    CASE e.op = "add" ->
           LET h == Add([g EXCEPT !.f[e.i].cached = e.cached], e.n, e.i)
           IN  Out([S EXCEPT !.g = h], Chk("outcome", e.got, Ok) \o After(h, e))
      [] e.op = "del" ->
           LET h == Del(g, e.n)
           IN  Out([S EXCEPT !.g = h], Chk("outcome", SubSeq(e.got, 1, Len(e.got) - (IF Len(e.got) = 3 THEN 1 ELSE 0)), IF HasHandle(g.b, e.n) THEN Ok ELSE Nope) \o After(h, e))
      [] e.op = "get" ->
           LET r == Denotes(g, K, w, e.slc)
               h == Read(g, K, w, e.force, r, e)
               plain == w.k = "name" /\ HasHandle(g.b, w.n) /\ K.all = <<>> /\ Find(K.proc, w.n) = 0 /\ e.slc = <<>>
           IN  Out([S EXCEPT !.g = IF IsExc(r) /\ g.crd = "no" /\ Knows(g) THEN [h EXCEPT !.crd = "maybe"] ELSE h], Same(e.got, r, S.center) \o After(h, e)
                   \o (IF plain THEN Chk("same-object", e.same, g.long \/ e.force \/ g.f[Owner(g.b, w.n)].cached) ELSE <<>>)
                   \o (IF w.k = "eqn" /\ e.got[1] = "fld" THEN Chk("name-of-result", e.name, w.n) ELSE <<>>))
      [] e.op = "item" ->           \* by [], which also knows coordinates
           LET r == Denotes(g, K, w, <<>>)
               h == Read(g, K, w, FALSE, r, e)
               isc == w.k = "name" /\ r = None /\ Find(S.crds, w.n) # 0
               known == Knows(g) \/ (g.crd = "maybe" /\ e.got[1] = "arr")
           IN  Out([S EXCEPT !.g = IF r = None THEN [h EXCEPT !.crd = IF known THEN "yes" ELSE @] ELSE IF IsExc(r) /\ Knows(g) /\ g.crd = "no" THEN [h EXCEPT !.crd = "maybe"] ELSE h],
                   (IF isc THEN Chk("coordinate", IF known THEN e.got ELSE SubSeq(e.got, 1, 2), IF known THEN <<"arr", S.crds[Find(S.crds, w.n)].p>> ELSE Nope)
                    ELSE Same(e.got, r, S.center)) \o After(h, e))
      [] e.op = "long" -> Out([S EXCEPT !.g.long = e.v], <<>>)
      [] e.op \in {"clear", "with"} ->
           LET h == Forget(g, Kept(g)) IN Out([S EXCEPT !.g = h], Chk("outcome", e.got, Ok) \o After(h, e))
      [] e.op = "empty" ->
           LET h == [g EXCEPT !.b = Clear(g.b)] IN Out([S EXCEPT !.g = h], Chk("outcome", e.got, Ok) \o After(h, e))
      [] e.op = "names" -> Out(S, Chk("field-names", e.got, Names(g)) \o Chk("number-of-fields", e.n, Len(g.b.ent)))
      [] e.op = "in" -> Out(S, Chk("contains", e.got, HasHandle(g.b, e.n)))
      [] e.op = "iter" ->           \* e.ns: names asked for; all of them without
           LET ns == IF e.all THEN Names(g) ELSE e.ns
               bad == {k \in 1..Len(ns) : ~HasHandle(g.b, ns[k])}
               upto == IF bad = {} THEN Len(ns) ELSE (CHOOSE k \in bad : \A m \in bad : k <= m) - 1
               ids == [k \in 1..upto |-> Owner(g.b, ns[k])]
               h == Forget(g, SetOf(ids))
           IN  Out([S EXCEPT !.g = h], Chk("fields-in-order", e.ids, ids) \o Chk("names-in-order", e.keys, SubSeq(ns, 1, upto))
                   \o Chk("first-values", e.vals, [k \in 1..upto |-> g.f[ids[k]].A.v[1]])
                   \o Chk("ends", e.end, IF bad = {} THEN "ok" ELSE "KeyError") \o After(h, e))
NIn(init) == [g |-> [b |-> Empty, f |-> init.f, long |-> FALSE, crd |-> IF init.crd THEN "yes" ELSE "no"], K |-> init.K, center |-> init.center,
              crds |-> init.crds]
Init == TInit(NIn)
Next == TNext(NStep)
Spec == Init /\ [][Next]_vars
=============================================================================

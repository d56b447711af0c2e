-------------------------- MODULE FileBucketTrace --------------------------
EXTENDS TraceBase, FileBucket
(* init: names, kids (name -> child names); every event carries the projection obs of the real bucket afterwards *)
KidsOf(e) == e.kids

Proj(f, e) ==
    [i \in 1..Len(f.ent) |-> <<f.ent[i].name, f.ent[i].obj, f.ent[i].idx, f.ent[i].ver>>]
ObsBad(f, e) ==
    Chk("open-files", e.obs.ent, Proj(f, e))
    \o Chk("lookup-by-name", e.obs.look, [i \in 1..Len(e.obs.names) |->
              IF In(f, e.obs.names[i]) THEN At(f, e.obs.names[i]).obj ELSE 0])
    \o ChkT("unloaded-files-are-empty", \A i \in 1..Len(e.obs.full) : e.obs.full[i] \notin f.dead)

St(KIDS, f) == [KIDS |-> KIDS, f |-> f]

FStep(s0, e) ==
    LET KIDS == s0.KIDS
        f == s0.f
        Out(g, bad) == [st |-> St(KIDS, g), bad |-> bad \o ObsBad(g, e)]
    IN
    CASE e.op = "load" ->
            LET r == Load(KIDS, f, e.n, TRUE, 0)
            IN  Out(r.f, Chk("loaded-object", e.res, IF r.ok THEN <<"obj", At(r.f, e.n).obj>> ELSE <<"none">>))
      [] e.op = "loadmany" ->
            LET r1 == Load(KIDS, f, e.ns[1], TRUE, 0)
                r2 == IF Len(e.ns) > 1 THEN Load(KIDS, r1.f, e.ns[2], TRUE, 0) ELSE r1
                os == (IF r1.ok THEN <<At(r1.f, e.ns[1]).obj>> ELSE <<>>)
                      \o (IF Len(e.ns) > 1 /\ r2.ok THEN <<At(r2.f, e.ns[2]).obj>> ELSE <<>>)
            IN  Out(r2.f, Chk("loaded-objects", e.res, <<"objs", os>>))
      [] e.op = "force" ->
            LET g == IF In(f, e.n) THEN Reload(KIDS, f, e.n) ELSE Load(KIDS, f, e.n, TRUE, 0).f
            IN  Out(g, Chk("reloaded-object", e.res, IF In(g, e.n) THEN <<"obj", At(g, e.n).obj>> ELSE <<"none">>))
      [] e.op = "hold" ->
            LET g == Hold(KIDS, f, e.n, e.force)
            IN  Out(g, Chk("held-object", e.res, IF In(g, e.n) THEN <<"obj", At(g, e.n).obj>> ELSE <<"none">>))
      [] e.op = "reload" -> Out(Reload(KIDS, f, e.n), Chk("outcome", e.res, <<"ok">>))
      [] e.op = "unload" -> Out(Unload(f, e.n, 1), Chk("outcome", e.res, <<"ok">>))
      [] e.op = "del" -> Out(Remove(f, e.n), Chk("outcome", e.res, <<"ok">>))
      [] e.op = "all" -> Out([RemoveAll(f) EXCEPT !.dead = @], Chk("outcome", e.res, <<"ok">>))
      [] e.op = "write" -> Out([f EXCEPT !.disk[e.n] = e.v], Chk("outcome", e.res, <<"ok">>))
      [] e.op = "get" ->
            Out(f, Chk("get-by-index", e.res,
                  IF \E i \in 1..Len(f.ent) : f.ent[i].idx = e.i
                  THEN <<"obj", f.ent[CHOOSE i \in 1..Len(f.ent) : f.ent[i].idx = e.i].obj>> ELSE <<"none">>))

FBInit(init) == St(init.kids, FInit(init.disk))
Init == TInit(FBInit)
Next == TNext(FStep)
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE FileBucketMC ----------------------------
EXTENDS FileBucket, TLC, Json
VARIABLES f, act
CONSTANTS MaxRef, MaxVer, Names


KIDS == [n \in Names |-> CASE n = "p" -> <<"a", "b">> [] n = "q" -> <<"a", "a">> [] n = "r" -> <<"p">> [] OTHER -> <<>>]

Init == f = FInit([n \in Names |-> 0]) /\ act = <<"init">>

DoLoad == \E n \in Names : f' = Load(KIDS, f, n, TRUE, 0).f /\ act' = <<"load", n>>
DoForce == \E n \in Names : In(f, n) /\ Deep(KIDS, f, <<n>>) /\ f' = Reload(KIDS, f, n) /\ act' = <<"force", n>>
DoHold == \E n \in {"a"} : Deep(KIDS, f, <<n>>) /\ f' = Hold(KIDS, f, n, TRUE) /\ act' = <<"hold", n>>
DoUnload == \E n \in Names : In(f, n) /\ f' = Unload(f, n, 1) /\ act' = <<"unload", n>>
DoRemove == \E n \in {"a", "p"} \cap Names : In(f, n) /\ f' = Remove(f, n) /\ act' = <<"del", n>>
DoAll == f' = RemoveAll(f) /\ act' = <<"all">>
DoWrite == \E n \in {"a", "p"} : f.disk[n] < MaxVer /\ f' = [f EXCEPT !.disk[n] = @ + 1] /\ act' = <<"write", n>>
DoBreak == \E n \in {"b"} : f' = [f EXCEPT !.disk[n] = IF @ = BAD THEN 0 ELSE BAD] /\ act' = <<"break", n>>
Next == DoLoad \/ DoForce \/ DoHold \/ DoUnload \/ DoRemove \/ DoAll \/ DoWrite \/ DoBreak
Spec == Init /\ [][Next]_<<f, act>>

Strip(e) == <<e.name, e.ref, e.ver, e.kids>>
View == <<[i \in 1..Len(f.ent) |-> Strip(f.ent[i])], f.disk>>
Bound == \A i \in 1..Len(f.ent) : f.ent[i].ref <= MaxRef /\ \A j \in 1..Len(f.ent[i].kids) : f.ent[i].kids[j][2] <= MaxRef
VS(x) == ToString(<<[i \in 1..Len(x.ent) |-> Strip(x.ent[i])], x.disk>>)
Emit == PrintT(ToJson(<<VS(f), act', VS(f')>>))

Inv == OneEach(f) /\ Alive(f)
(* a file some container still holds is not taken away by unloading something else *)
SharedSurvives ==
    [][\A n \in Names : (act'[1] = "unload" /\ act'[2] # n /\ In(f, n) /\ At(f, n).ref >= Held(f, n) /\ Held(f', n) > 0)
          => In(f', n) /\ At(f', n).obj = At(f, n).obj]_<<f, act>>
(* loading what is loaded gives the same object, unparsed *)
SameObject == [][\A n \in Names : (act' = <<"load", n>> /\ In(f, n)) => f' = f]_<<f, act>>
(* contents change only by re-reading *)
Stable == [][\A n \in Names : (In(f, n) /\ In(f', n) /\ At(f, n).obj = At(f', n).obj /\ At(f, n).ver # At(f', n).ver)
          => act'[1] \in {"force", "hold"}]_<<f, act>>
Fresh == [][\A n \in Names : (~In(f, n) /\ In(f', n)) => At(f', n).ver = f.disk[n] /\ At(f', n).obj > f.nobj]_<<f, act>>
=============================================================================

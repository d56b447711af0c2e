------------------------------ MODULE BucketMC ------------------------------
(* exhaustive: 3 items, 2 named handles, index handles 0..MaxCtr-1, every operation in every reachable state *)
EXTENDS Bucket, TLC, Json
CONSTANTS Items, Handles, MaxCtr, MaxRef
VARIABLES b, act

HSeqs == {<<>>, <<"!u">>} \cup {<<h>> : h \in Handles} \cup {<<h, k>> : h \in Handles, k \in Handles}

Init == b = Empty /\ act = <<"init">>

DoSet == \E hs \in HSeqs, it \in Items, idx \in BOOLEAN, ar \in BOOLEAN :
            /\ b' = SetItem(b, hs, it, idx, ar)
            /\ act' = <<"set", hs, it, idx, ar>>
DoRemItem == \E it \in Items : b' = RemoveItem(b, it).b /\ act' = <<"remitem", it>>
DoRemHandle == \E h \in Handles \cup {"#0", "#1"} : b' = RemoveHandle(b, h).b /\ act' = <<"remhandle", h>>
DoRemRef == \E it \in Items, k \in 0..2 : b' = RemoveRef(b, it, k).b /\ act' = <<"remref", it, k>>
DoClear == b' = Clear(b) /\ act' = <<"clear">>
Next == DoSet \/ DoRemItem \/ DoRemHandle \/ DoRemRef \/ DoClear

Spec == Init /\ [][Next]_<<b, act>>
Bound == b.ctr <= MaxCtr /\ \A i \in 1..Len(b.ent) : b.ent[i].ref <= MaxRef
View == b
Emit == PrintT(ToJson(<<ToString(b), act', ToString(b')>>))
Inv == BucketInv(b)

(* a handle changes hands only when somebody claims it; an item disappears only for a stated reason *)
StealOnlyBySet ==
    [][\A h \in Handles : (HasHandle(b, h) /\ HasHandle(b', h) /\ Owner(b, h) # Owner(b', h)) => act'[1] = "set"]_<<b, act>>
GoneForAReason ==
    [][\A it \in Items : (HasItem(b, it) /\ ~HasItem(b', it)) =>
          \/ act'[1] \in {"clear", "remitem", "remhandle", "remref"}
          \/ act'[1] = "set" /\ act'[3] # it /\ \A h \in Range(Entry(b, it).hs) : h \in Range(act'[2]) \cup {IdxName(b.ctr)}]_<<b, act>>
RefKeepsAlive ==
    [][\A it \in Items : (act'[1] = "remref" /\ HasItem(b, it) /\ Entry(b, it).ref > act'[3]) => HasItem(b', it)]_<<b, act>>
=============================================================================

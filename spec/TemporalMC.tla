----------------------------- MODULE TemporalMC -----------------------------
EXTENDS Temporal, TLC, Json
VARIABLES st, act
CONSTANTS MaxKids, TV

Kids == st.tds[1].kids
Init == st = [tds |-> <<[name |-> "a", kids |-> <<>>, act |-> 0]>>, top |-> "a"] /\ act = <<"init">>
DoAdd == /\ Len(Kids) < MaxKids
         /\ \E t \in TV, sa \in {TRUE, FALSE} :
              LET id == Len(Kids) + 1
              IN  st' = AddKid(st, 1, t, id, sa) /\ act' = <<"add", t, id, sa>>
DoActivate == /\ Kids # <<>>
              /\ \E x \in {<<"i", -1>>, <<"i", 1>>} \cup {<<"v", t + d>> : t \in TV, d \in {0, 1}} :
                   \E id \in One(Kids, x) : st' = SetAct(st, 1, id) /\ act' = <<"activate", x>>
Next == DoAdd \/ DoActivate
Spec == Init /\ [][Next]_<<st, act>>
View == st
VS(x) == ToString(x)
Emit == PrintT(ToJson(<<VS(st), act', VS(st')>>))

InOrder == Sorted(Kids) /\ OneEach(Kids)
(* among equal times, earlier additions come first *)
StableOrder == \A i, j \in 1..Len(Kids) : (i < j /\ Kids[i].t = Kids[j].t) => Kids[i].id < Kids[j].id
ActiveIsKid == st.tds[1].act # 0 => \E i \in 1..Len(Kids) : Kids[i].id = st.tds[1].act
(* a single time means the nearest; a slice of times means what lies in it *)
SlicesInclusive ==
    \A a, b \in TV : \A ids \in Sel(Kids, <<"s", <<"v", a>>, <<"v", b>>, 1>>, TRUE, FALSE) :
        \A i \in 1..Len(Kids) : (\E j \in 1..Len(ids) : ids[j] = Kids[i].id) <=> (Kids[i].t >= a /\ Kids[i].t <= b)
NearestIs == \A v \in TV : Kids # <<>> => \A id \in One(Kids, <<"v", v + 1>>) :
        LET d(i) == Abs(Kids[i].t - v - 1)
            k == CHOOSE i \in 1..Len(Kids) : Kids[i].id = id
        IN  \A i \in 1..Len(Kids) : d(k) <= d(i)
AddKeepsOthers == [][act'[1] = "add" => \A i \in 1..Len(Kids) : \E j \in 1..Len(Kids') : Kids[i] = Kids'[j]]_<<st, act>>
=============================================================================

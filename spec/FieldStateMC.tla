---------------------------- MODULE FieldStateMC ----------------------------
EXTENDS FieldState, TLC, Json
VARIABLES s, act
CONSTANTS MaxF, MaxV, MaxH, MaxT, Cp, Tr, Lazy
Init == /\ s = [v |-> 1, reads |-> 0, nt |-> 1, heap |-> IF Lazy THEN <<>> ELSE <<50>>,
                f |-> <<[src |-> IF Lazy THEN 0 ELSE 1, cache |-> 0, par |-> 0, cp |-> Cp, tr |-> Tr, tok |-> 0, lay |-> "", slay |-> "flat"]>>]
        /\ act = <<"init">>
F == 1..Len(s.f)
Next ==
    \/ s.v < MaxV /\ s' = Bump(s) /\ act' = <<"bump">>
    \/ \E i \in F :
        \/ Len(s.heap) < MaxH /\ s' = Load(s, i) /\ act' = <<"look", i>>
        \/ s' = Clear(s, i) /\ act' = <<"clear", i>>
        \/ Len(s.heap) < MaxH /\ s' = Write(s, i, 100 + i) /\ act' = <<"write", i>>
        \/ Len(s.heap) < MaxH /\ s.nt < MaxT /\ s' = Forget(s, i) /\ act' = <<"forget", i>>
        \/ Len(s.heap) < MaxH /\ s.nt < MaxT /\ s' = Assign(s, i, 70 + i, Lay(s.f[i])) /\ act' = <<"assign", i>>
        \/ s.nt < MaxT /\ \E l \in {"flat", "interlaced"} : s' = SetLay(s, i, l) /\ act' = <<"setlay", i, l>>
        \/ Len(s.f) < MaxF /\ s.nt < MaxT /\ \E b \in {TRUE, FALSE} : s' = Shell(s, i, b) /\ act' = <<"shell", i, b>>
        \/ Len(s.f) < MaxF /\ s' = Recenter(s, i) /\ act' = <<"recenter", i>>
        \/ Len(s.f) < MaxF /\ s.nt < MaxT /\ s' = Expand(s, i) /\ act' = <<"expand", i>>
Spec == Init /\ [][Next]_<<s, act>>
View == s
Emit == PrintT(ToJson(<<ToString(s), act', ToString(s')>>))

Same == Len(s'.f) = Len(s.f)
(* looking changes no values *)
LookIsPure == [][(act'[1] \in {"look", "recenter", "shell", "expand"}) => \A i \in F : Val(s', i) = Val(s, i)]_<<s, act>>
(* what is loaded stays until it is cleared, or written by someone who shares it *)
Stays == [][\A i \in F : Loaded(s, i) /\ act'[1] \in {"look", "bump", "assign", "forget", "shell", "expand", "recenter"} /\ ~(act'[1] = "assign" /\ act'[2] = i)
              => Loaded(s', i) /\ Val(s', i) = Val(s, i)]_<<s, act>>
(* clearing only ever brings back the source, for the field and the one it is a centering of *)
Clears == [][act'[1] = "clear" => \A i \in F : (s'.f[i].cache # s.f[i].cache => i = act'[2] \/ i = s.f[act'[2]].par)]_<<s, act>>
(* a field that forgot the file never changes with it *)
Forgets == [][act'[1] = "bump" => \A i \in F : s.f[i].src # 0 \/ Loaded(s, i) => Val(s', i) = Val(s, i)]_<<s, act>>
(* reading happens only to fill an empty cache, once *)
ReadsOnce == [][s'.reads - s.reads \in {0, 1} /\ (s'.reads # s.reads => act'[1] \in {"look", "write", "forget"} /\ ~Loaded(s, act'[2]) /\ Loaded(s', act'[2]))]_<<s, act>>
(* assigning gives that field these values, and no other field *)
Assigns == [][act'[1] = "assign" => Val(s', act'[2]) = 70 + act'[2] /\ \A i \in F : i # act'[2] /\ (Loaded(s, i) \/ Have(s, i) = 0) => Val(s', i) = Val(s, i)]_<<s, act>>
Writes == [][act'[1] = "write" => \A i \in F : Val(s', i) # Val(s, i) =>
               \/ Have(s', i) # 0 /\ Have(s', i) = s'.f[act'[2]].cache
               \/ s'.f[i].cache = 0 /\ s'.f[i].src = s'.f[act'[2]].cache]_<<s, act>>
=============================================================================

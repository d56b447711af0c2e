----------------------------- MODULE InfoTreeMC -----------------------------
EXTENDS InfoTree, TLC, Json
VARIABLES t, act
CONSTANTS N, K, V
Nodes == 1..N
Init == t = [par |-> [n \in Nodes |-> <<>>], info |-> [n \in Nodes |-> [k \in K |-> NO]]] /\ act = <<"init">>
DoLink == \E n, p \in Nodes : n > p /\ t' = Link(t, n, p) /\ act' = <<"link", n, p>>
(* references may be circular *)
DoBack == t' = Link(t, 1, N) /\ act' = <<"link", 1, N>>
DoUnlink == \E n, p \in Nodes : Elem(p, t.par[n]) /\ t' = Unlink(t, n, p) /\ act' = <<"unlink", n, p>>
DoSet == \E n \in Nodes, k \in K, v \in V : t' = Set(t, n, k, v) /\ act' = <<"set", n, k, v>>
DoUpdate == \E n \in Nodes, k \in K, fb \in {TRUE, FALSE} :
              LET v == CHOOSE v \in V : TRUE IN t' = Update(t, n, k, v, fb) /\ act' = <<"update", n, k, v, fb>>
Next == DoLink \/ DoBack \/ DoUnlink \/ DoSet \/ DoUpdate
Spec == Init /\ [][Next]_<<t, act>>
View == t
VS(x) == ToString(x)
Emit == PrintT(ToJson(<<VS(t), act', VS(t')>>))

RECURSIVE Ball(_, _)
Ball(n, d) == IF d = 0 THEN {n} ELSE LET b == Ball(n, d - 1) IN b \cup {p \in Nodes : \E m \in b : Elem(p, t.par[m])}
Dist(n, m) == CHOOSE d \in 0..N : m \in Ball(n, d) /\ (d = 0 \/ m \notin Ball(n, d - 1))
(* the answer is the nearest node that knows; there is none iff nobody above knows *)
Nearest == \A n \in Nodes, k \in K :
    LET w == Owner(t, n, k)
    IN  IF w = 0 THEN \A m \in Ball(n, N) : t.info[m][k] = NO
        ELSE /\ w \in Ball(n, N) /\ t.info[w][k] # NO
             /\ \A m \in Ball(n, N) : t.info[m][k] # NO => Dist(n, w) <= Dist(n, m)
OwnFirst == \A n \in Nodes, k \in K : t.info[n][k] # NO => Owner(t, n, k) = n
OnceEach == \A n \in Nodes : LET o == Order(t, n) IN Len(o) = Cardinality({o[i] : i \in 1..Len(o)}) /\ {o[i] : i \in 1..Len(o)} = Ball(n, N)
(* an update is seen by whoever saw the old value *)
UpdateSeen == [][act'[1] = "update" =>
     (\A n \in Nodes : (Owner(t, n, act'[3]) # 0 /\ Owner(t, n, act'[3]) = Owner(t, act'[2], act'[3])) => Find(t', n, act'[3]) = act'[4])]_<<t, act>>
=============================================================================

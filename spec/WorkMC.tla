------------------------------- MODULE WorkMC -------------------------------
EXTENDS Work, TLC, Json
CONSTANTS MaxN, MaxW, MaxEl, MaxK
VARIABLES n, w, st, res, act
Init == /\ n \in 1..MaxN /\ w \in 1..MaxW
        /\ st = Begin([run |-> {}, fin |-> {}], w, n)
        /\ res = [i \in 1..n |-> 0]
        /\ act = <<"init", n, w>>
Next == \E i \in st.run :
          /\ st' = Begin(Finish(st, i), w, n)
          /\ res' = [res EXCEPT ![i] = 10 * i]
          /\ act' = <<"finish", i>>
          /\ UNCHANGED <<n, w>>
Spec == Init /\ [][Next]_<<n, w, st, res, act>> /\ WF_<<n, w, st, res, act>>(Next)
View == <<n, w, st, res>>
Emit == PrintT(ToJson(<<ToString(<<n, w, st>>), act', ToString(<<n', w', st'>>), n, w>>))
AtMostW == Cardinality(st.run) <= w
Busy == Cardinality(st.run) = w \/ Started(st) = 1..n
InOrder == \A i \in Started(st) : 1..i \subseteq Started(st)
Answers == st.fin = 1..n => \A i \in 1..n : res[i] = 10 * i
Ends == <>(st.fin = 1..n)

RECURSIVE Cat(_, _)
Cat(q, i) == IF i = 0 THEN <<>> ELSE Cat(q, i - 1) \o q[i]
ASSUME \A e \in 0..MaxEl, k \in 1..MaxK :
         LET sl == Slices(e, k)
             z == Sizes(e, k)
         IN  /\ Cat([i \in 1..k |-> Range(sl[i][1], sl[i][2])], k) = Range(0, e)
             /\ \A i, j \in 1..k : z[i] - z[j] \in {-1, 0, 1} /\ (i <= j => z[i] >= z[j])
             /\ \A i \in 1..k : Len(Inter(e, k)[i]) = z[i]
             /\ UNION {{Inter(e, k)[i][j] : j \in 1..z[i]} : i \in 1..k} = 0..(e - 1)
ASSUME \A e \in 1..MaxEl, m \in 1..MaxK :
         LET k == NChunks(e, 0, m) IN \A i \in 1..k : Sizes(e, k)[i] <= m /\ Sizes(e, k)[i] >= 1
=============================================================================

------------------------------ MODULE SelectMC ------------------------------
(* every selection of every small coordinate array; each case is printed and replayed on the library *)
EXTENDS Select, TLC, Json
CONSTANTS Crds, Pts, Ints, Steps     \* coordinate arrays, locations, positions, strides
MCCrds == {<<0>>, <<-4, 4>>, <<-8, -4, 0, 4>>, <<-8, -4, 0, 4, 12>>, <<-8, -7, -4, 4, 16>>}
MCPts == {-12, -8, -7, -4, -3, 0, 1, 4, 9, 12, 20}
MCInts == {-6, -5, -1, 0, 2, 4, 5, 6}
MCSteps == {-3, -2, -1, 1, 2, 3}
MCCrdsBig == MCCrds \cup {<<-4>>, <<0, 1, 2, 3, 4, 5, 6>>, <<-8, -4, 0, 4, 8, 12, 16>>, <<-9, -8, -4, 0, 1, 16>>}
MCPtsBig == -12..20
MCIntsBig == -8..8
VARIABLES c, sel, mode
vars == <<c, sel, mode>>

Ends == {<<"n">>} \cup {<<"i", k>> : k \in Ints} \cup {<<"v", x>> : x \in Pts}
Sels == {<<"all">>} \cup {<<"i", k>> : k \in Ints} \cup {<<"v", x>> : x \in Pts}
        \cup {<<"s", a, b, st>> : a \in Ends, b \in Ends, st \in Steps}
(* modes: ordinary / half open at locations / grown so that locations are interior *)
Modes == {"end", "noend", "interior"}
Init == c \in Crds /\ sel = <<"all">> /\ mode = "end"
LocSlice(s) == s[1] = "s" /\ (s[2][1] = "v" \/ s[3][1] = "v")
Inside(e) == e[1] # "v" \/ (e[2] >= c[1] /\ e[2] <= c[Len(c)])
(* interior selections ask for locations that can be interior, in order, with unit stride *)
InteriorOk(s) == /\ s[4] \in {1, -1} /\ Inside(s[2]) /\ Inside(s[3]) /\ s[2][1] # "i" /\ s[3][1] # "i"
                 /\ (s[2][1] = "v" /\ s[3][1] = "v") => (s[3][2] - s[2][2]) * s[4] >= 0
Next == /\ sel = <<"all">> /\ mode = "end"
        /\ sel' \in Sels
        /\ mode' \in Modes
        /\ ((mode' # "end") => LocSlice(sel')) = TRUE
        /\ ((mode' = "interior") => InteriorOk(sel')) = TRUE
        /\ c' = c
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson(<<"case", c', sel', mode'>>))

Range(s) == {s[i] : i \in 1..Len(s)}
A == Answers(c, sel, mode # "noend", mode = "interior")
TypeOK == \A a \in A : \A i \in 1..Len(a) : a[i] >= 0 /\ a[i] < Len(c)

(* the meaning of a location slice, stated without search: strided walk over {x : start <= x <= stop} *)
Between(a, b) == {i \in 0..(Len(c) - 1) : (a[1] = "v" => c[i + 1] + Tol(c) >= a[2]) /\ (b[1] = "v" => c[i + 1] - Tol(c) <= b[2])}
ClosedInterval ==
    (sel[1] = "s" /\ mode = "end" /\ sel[2][1] # "i" /\ sel[3][1] # "i") =>
        LET st == sel[4]
            S == IF st > 0 THEN Between(sel[2], sel[3]) ELSE Between(sel[3], sel[2])
            a == CHOOSE x \in A : TRUE
        IN  /\ Range(a) \subseteq S
            /\ (S # {}) => /\ a # <<>>
                           /\ a[1] = (IF st > 0 THEN SetMin(S) ELSE SetMax(S))
                           /\ \A i \in S : \E j \in 1..Len(a) : Abs(i - a[j]) < Abs(st)
            /\ \A i \in 1..(Len(a) - 1) : a[i + 1] - a[i] = st
(* backward is forward over the mirrored array *)
Mirror(e, n) == IF e[1] = "v" THEN <<"v", -e[2]>> ELSE e
MirrorC == [i \in 1..Len(c) |-> -c[Len(c) + 1 - i]]
Duality ==
    (sel[1] = "s" /\ sel[2][1] # "i" /\ sel[3][1] # "i") =>
        LET a == CHOOSE x \in A : TRUE
            b == SliceIdx(MirrorC, Mirror(sel[2], Len(c)), Mirror(sel[3], Len(c)), -sel[4], mode # "noend", mode = "interior")
        IN  b = [i \in 1..Len(a) |-> Len(c) - 1 - a[i]]
InteriorHolds ==
    (mode = "interior" /\ sel[1] = "s") =>
        LET a == CHOOSE x \in A : TRUE
            lo == c[SetMin(Range(a)) + 1]
            hi == c[SetMax(Range(a)) + 1]
        IN  /\ a # <<>>
            /\ \A e \in {sel[2], sel[3]} : e[1] = "v" => (lo <= e[2] /\ e[2] <= hi)
(* a location slice never selects beyond its end points (ordinary mode); half open drops at most one element *)
HalfOpen ==
    (mode = "noend" /\ sel[1] = "s") =>
        LET a == CHOOSE x \in A : TRUE
            f == SliceIdx(c, sel[2], sel[3], sel[4], TRUE, FALSE)
        IN  Range(a) \subseteq Range(f) /\ (sel[4] \in {1, -1} => Len(f) - Len(a) <= 1)
=============================================================================

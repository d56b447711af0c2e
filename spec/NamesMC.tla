------------------------------ MODULE NamesMC ------------------------------
(* fields a, b kept or not (two objects may be under either name), d is got from a, p is processed, everything may be *)
EXTENDS Names, TLC, Json
CONSTANTS Alls, Deep
AllsDef == {<<>>}
AllsBig == {<<>>, << [n |-> "", op |-> "neg", c |-> 0] >>}
VARIABLES g, K, act
Ax == << [n |-> "x", p |-> <<0, 2>>] >>
F0 == << [A |-> [ax |-> Ax, nc |-> 0, v |-> <<1, 2>>], cached |-> FALSE], [A |-> [ax |-> Ax, nc |-> 0, v |-> <<3, -4>>], cached |-> FALSE] >>
Ns == {"a", "b", "d"}
Ks == {[get |-> << [n |-> "d", x |-> <<"bin", "+", <<"var", "a">>, <<"num", 5>>>>] >>, proc |-> << [n |-> "b", op |-> "mul", c |-> 2] >>,
        all |-> al, on |-> TRUE] : al \in Alls}
Init == /\ g = [b |-> Empty, f |-> F0, long |-> FALSE, crd |-> FALSE]
        /\ K \in Ks
        /\ act = <<"init">>
DoAdd == \E n \in Ns, i \in 1..2 : g' = Add(g, n, i) /\ act' = <<"add", n, i>>
DoDel == \E n \in Ns : HasHandle(g.b, n) /\ g' = Del(g, n) /\ act' = <<"del", n>>
DoGet == \E n \in Ns, fo \in {TRUE, FALSE} : LET w == [k |-> "name", n |-> n] IN
           ~IsExc(Denotes(g, K, w, <<>>)) /\ g' = Cache(g, SeenBy(g, K, w, fo)) /\ act' = <<"get", n, fo>>
DoLong == g' = [g EXCEPT !.long = ~@] /\ act' = <<"long", g'.long>>
DoClear == g' = Forget(g, Kept(g)) /\ act' = <<"clear">>
Next == (DoAdd \/ DoDel \/ DoGet \/ DoLong \/ DoClear) /\ K' = K
Spec == Init /\ [][Next]_<<g, K, act>>
NC == [g EXCEPT !.b = [g.b EXCEPT !.ctr = 0]]
Bound == g.b.ctr <= Deep
View == <<g, K>>
VS(x) == ToString(x)
Emit == PrintT(ToJson(<<VS(g), act', VS(g')>>))

Nm(n) == [k |-> "name", n |-> n]
Eq(x) == [k |-> "eqn", n |-> "r", x |-> x]
(* a kept field hides the getter of that name *)
KeptFirst == \A n \in Ns : (HasHandle(g.b, n) /\ Find(K.proc, n) = 0 /\ K.all = <<>>) =>
                 Denotes(g, K, Nm(n), <<>>) = <<"fld", g.f[Owner(g.b, n)].A>>
(* without a field a, nothing got from it *)
NeedsIts == (~HasHandle(g.b, "a") /\ ~HasHandle(g.b, "d")) => Denotes(g, K, Nm("d"), <<>>) = None
(* cutting first or last is the same for what acts place by place *)
E1 == <<"bin", "-", <<"bin", "*", <<"var", "a">>, <<"num", 3>>>>, <<"var", "b">>>>
CutEither == (HasHandle(g.b, "a") /\ HasHandle(g.b, "b")) =>
                 LET whole == Denotes(g, K, Eq(E1), <<>>)
                     part == Denotes(g, K, Eq(E1), <<1, 2>>)
                 IN  part = <<"num", whole[2].v[2]>>
(* fields got by name do not depend on what is in memory *)
Pure == \A n \in Ns : Denotes(g, K, Nm(n), <<>>) = Denotes(Forget(g, Kept(g)), K, Nm(n), <<>>)
Sound == BucketInv([g.b EXCEPT !.ent = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ref = 1]]])
(* nothing comes into memory unless asked to stay *)
NoLeak == [][(act'[1] = "get" /\ ~g.long /\ ~act'[3]) => Cached(g') = Cached(g)]_<<g, K, act>>
ClearAll == [][act'[1] = "clear" => Cached(g') = {}]_<<g, K, act>>
=============================================================================

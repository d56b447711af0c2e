----------------------------- MODULE CotrTrace -----------------------------
EXTENDS Cotr, TraceBase
T == 14
(* the year's first hours of 1967 are the moment without tilt *)
Quiet(e) == e.quiet
Given(e) == e.tilt # <<>> \/ e.gsm # <<>>
Or0(q) == IF q = <<>> THEN 0 ELSE q[1]
(* the moment that the session's object stands for; the dipole's angles are given, or those the code reports *)
Moment(e) ==
    LET mu == IF Given(e) \/ Quiet(e) THEN Or0(e.tilt) ELSE e.ang[1]
        psi == IF Given(e) \/ Quiet(e) THEN Or0(e.gsm) ELSE e.ang[2]
    IN  IF Quiet(e) THEN Still(mu, psi) ELSE Sky(e.h, e.s, mu, psi)
Err(a, b) == IF a \in Helio /\ b \in Helio THEN (IF a = b THEN "" ELSE IF "hae" \in {a, b} THEN "NotImplementedError" ELSE "ValueError")
             ELSE IF a \in Systems /\ b \in Systems THEN ""
             ELSE IF (a \in Systems /\ b \in Helio) \/ (a \in Helio /\ b \in Systems) THEN "NotImplementedError" ELSE "ValueError"
Raises(e, a, b) == IF Err(a, b) # "" THEN Err(a, b)
                   ELSE IF a \in Helio THEN ""
                   ELSE IF Uses(a, b, "mag") /\ Given(e) /\ ~Quiet(e) THEN "RuntimeError" ELSE ""
Way(P, a, b) == IF a \in Helio THEN Id3 ELSE Xform(P, a, b)
Same(clause, got, want, tol) == IF CloseV(got, want, tol) THEN <<>> ELSE << <<clause, want>> >>
Answer(P, e, o) ==
    LET a == o.from  b == o.to  want == Raises(e, a, b)
    IN  IF want # "" THEN (IF o.got[1] = "exc" /\ (o.got[2] = want \/ (o.q = "mat" /\ Err(a, b) # "")) THEN <<>> ELSE << <<"refuses", want>> >>)
        ELSE IF o.got[1] # "ok" THEN << <<"answers", "ok">> >>
        ELSE LET M == Way(P, a, b)  g == o.got[2]
             IN  CASE o.q = "mat" -> (IF CloseM(g, M, T) THEN <<>> ELSE << <<"matrix", M>> >>)
                                     \o (IF Len(o.got[3]) = 0 \/ o.got[3] = <<0, 0, 0, 0, 0, 0, S>> THEN <<>> ELSE << <<"border", 0>> >>)
                   [] o.q = "vec" -> IF Len(g) # Len(o.pts) THEN << <<"points", Len(o.pts)>> >>
                                     ELSE LET W == [i \in 1..Len(g) |-> LET v == Act(M, o.pts[i]) IN [j \in 1..3 |-> RDiv(v[j], 100)]]
                                          IN  (IF \A i \in 1..Len(g) : CloseV(g[i], W[i], 16) THEN <<>> ELSE << <<"vectors", W>> >>)
                                              \o Chk("shape", o.got[3], o.shape)
                   [] o.q = "wxyz" -> (IF /\ g[1] >= 0 /\ g[1] <= 180000
                                          /\ Abs(Dot(g[2], g[2]) \div S - S) <= 4
                                          /\ CloseM(OfUnit(g[2], g[1]), M, T + 20) THEN <<>> ELSE << <<"axis", M>> >>)
(* the dipole moment points south in sm *)
Dip(P, e, o) ==
    IF o.q = "mom"
    THEN LET b == o.to  want == Raises(e, "sm", b)
         IN  IF want # "" THEN (IF o.got[1] = "exc" /\ o.got[2] = want THEN <<>> ELSE << <<"refuses", want>> >>)
             ELSE IF o.got[1] # "ok" THEN << <<"answers", "ok">> >>
             ELSE Same("moment", o.got[2], [i \in 1..3 |-> -o.k * Xform(P, "sm", b)[i][3]], T * o.k)
    ELSE IF o.got[1] # "ok" THEN << <<"answers", "ok">> >>
    ELSE IF Abs(o.got[2][1] - P.mu) <= 2 /\ Abs(o.got[2][2] - P.psi) <= 2 THEN <<>> ELSE << <<"angles", <<P.mu, P.psi>>>> >>
(* when the sky sets the angles, the dipole is the z axis of sm and lies in the xz plane of gsm *)
Source(P, e) ==
    IF Given(e) \/ Quiet(e) THEN <<>>
    ELSE (IF CloseV(Scaled(Act(Xform(P, "geo", "sm"), North(e.h))), <<0, 0, S>>, 14) THEN <<>> ELSE << <<"dipole", NorthGse(P)>> >>)
         \o ChkT("tilt", Abs(P.mu) <= 90000)
RECURSIVE Ops(_, _, _)
Ops(P, e, i) == IF i > Len(e.ops) THEN <<>>
                ELSE LET o == e.ops[i] IN (IF o.q \in {"mom", "ang"} THEN Dip(P, e, o) ELSE Answer(P, e, o)) \o Ops(P, e, i + 1)
(* a moment given as a vector u/n: the same vector comes back *)
Back(e) == IF e.m = <<>> THEN <<>>
           ELSE LET w == Unit(e.m[1], e.m[2]) IN Same("round trip", e.back, IF e.msys = "mhd" THEN <<-w[1], -w[2], w[3]>> ELSE w, 6)
Judge(init, e) ==
    CASE e.op = "cotr" ->
           IF e.made[1] # "ok" THEN << <<"made", e.made>> >>
           ELSE IF ~Given(e) /\ ~Quiet(e) /\ e.ang = <<>> THEN << <<"angles", "ok">> >>
           ELSE LET P == Moment(e)
                    U == UNION {{Source(P, e) \o Back(e) \o Ops(Q, e, 1)} : Q \in {P}}
                IN  CHOOSE b \in U : TRUE
      [] e.op = "rot" ->
           IF e.want = "bad" THEN (IF e.got[1] = "exc" /\ e.got[2] = "ValueError" THEN <<>> ELSE << <<"refuses", "ValueError">> >>)
           ELSE IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
           ELSE LET H == Hap(e.axis, e.a)  g == e.got[2]
                IN  IF Len(g) = e.rdim /\ \A i, j \in 1..e.rdim : Abs(g[i][j] - (IF i <= 3 /\ j <= 3 THEN H[i][j] ELSE IF i = j THEN S ELSE 0)) <= 3
                    THEN <<>> ELSE << <<"matrix", H>> >>
      [] e.op = "shift" ->
           (* moving by v and back *)
           IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
           ELSE Chk("moved", e.got[2], [i \in 1..4 |-> IF i < 4 THEN e.p[i] + e.v[i] ELSE 1])
                \o Chk("moved back", e.got[3], [i \in 1..4 |-> IF i < 4 THEN e.p[i] - e.v[i] ELSE 1])
      [] e.op = "nvec" ->
           IF e.got[1] # "ok" THEN << <<"answers", "ok">> >>
           ELSE LET n == Len(e.rows)  w == IF n >= e.ndim THEN e.rows
                                           ELSE [i \in 1..e.ndim |-> IF i <= n THEN e.rows[i] ELSE [j \in 1..Len(e.rows[1]) |-> e.init[i]]]
                IN  Chk("rows", e.got[2], w)
      [] e.op = "system" ->
           IF e.want = "exc" THEN (IF e.got[1] = "exc" /\ e.got[2] = "TypeError" THEN <<>> ELSE << <<"refuses", "TypeError">> >>)
           ELSE Chk("system", e.got, <<"ok", e.want>>)
      [] e.op = "cannot" -> IF e.got[1] = "exc" /\ e.got[2] = e.want THEN <<>> ELSE << <<"refuses", e.want>> >>
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================
